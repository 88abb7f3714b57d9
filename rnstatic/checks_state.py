"""C01-C04: aliasing, mutation and object state."""
from .framework import *

MUTATORS = ("add_", "scale_", "unmask", "reset_")


def is_mutator(name, kind):
    return kind == "set" or name.startswith(MUTATORS)


def fname(ev):
    return ev.ctx[-1].replace("ramannoodle.", "", 1) if ev.ctx else ev.fn


def origin_name(I, oid):
    o = I.origin.get(oid)
    return o[1] if o and o[0] == "arg" else None


# ------------------------------------------------------------------ C01
def c01(chk):
    E = chk.entries()
    I = E.I
    rs = list(E.all())
    # two-step histories: a mutating operation followed by every operation of the class
    hist = []
    for r in list(rs):
        if getattr(r, "member", None) is None or r.st is None or r.error: continue
        if is_mutator(r.member, r.kind):
            hist.append(r)
    seen = set()
    for r in hist:
        k = (r.cls.name, r.member, r.kind)
        if k in seen: continue
        seen.add(k)
        for n, kind, f in E.class_members(r.cls):
            ins = E.instance_args(f, r.st)
            if ins is None: continue
            for itag, given, st1 in ins[:1]:
                v = E.variants(f)[0]
                if "file_format" in v: v = dict(v, file_format="outcar")
                g, st2 = E.special("", f, given, st1)
                if kind == "set": g[f.node.args.args[1].arg] = E.argument(r.cls.name, n, st2, prefix="h.")
                rs.append(E.call_method(f"{r.name} ; {n}{'=' if kind == 'set' else ''}", f, r.self_ref, st2, v, g, prefix="h."))
    ncov = 0
    for r in rs:
        if r.error:
            chk.unknown("no-arg-mutation", short(r.name), "", r.error); continue
        bad = False
        for e in r.events:
            if e.kind != "mut": continue
            a = origin_name(I, e.data["oid"])
            if a is None: continue
            bad = True
            chk.bad("no-arg-mutation", f"{fname(e)}: {a.split('.')[-1]}", e.site,
                    f"in-place update ({e.data['how']}) of the caller's argument '{a}' reached from {short(r.name)}")
        if not bad:
            ncov += 1
            chk.ok("no-arg-mutation", short(r.name), "", f"{sum(1 for e in r.events if e.kind == 'mut')} in-place updates, none on caller data")
    chk.info["entry_runs"] = len(rs)


# ------------------------------------------------------------------ C02
IMMUTABLE_EXT = ("pathlib", "torch.device", "torch.dtype")


def shared_with_self(st, self_ref, value):
    """Mutable containers reachable from the value (not through other objects' private fields) that are also object state."""
    inst = lambda o: isinstance(o, InstO) and isinstance(o.cls, ClassV)
    mine = reachable(st, self_ref)
    out = []
    theirs = reachable(st, value, stop=inst)
    if isinstance(value, Ref) and value.oid == self_ref.oid: return []
    roots = {}
    for oid, p in theirs.items():
        o = st.heap.get(oid)
        if isinstance(o, ArrO) and o.base is not None:
            continue
        roots[oid] = p
    for oid, p in sorted(roots.items()):
        o = st.heap.get(oid)
        if oid not in mine: continue
        if isinstance(o, InstO):
            if isinstance(o.cls, ExtV) and o.cls.name.startswith(IMMUTABLE_EXT): continue
            if isinstance(o.cls, ClassV) and p == "" and False: continue
            out.append((oid, p, mine[oid], getattr(o.cls, "name", "object")))
        elif isinstance(o, (ArrO, ListO, DictO)):
            if isinstance(o, ListO) and o.kind in ("range", "zip", "enum"): continue
            out.append((oid, p, mine[oid], {ArrO: "array", ListO: "list", DictO: "dict"}[type(o)]))
    return out


def c02(chk):
    E = chk.entries()
    for r in E.all():
        if getattr(r, "member", None) is None or r.kind == "set": continue
        con = f"{short(r.cls.mod.name)}.{r.cls.name}.{r.member}"
        if r.error:
            chk.unknown("no-shared-state", con, "", r.error); continue
        if r.st is None: continue
        if is_mutator(r.member, r.kind): pass
        where = (r.fn.mod.rel, r.fn.node.lineno)
        sh = []
        for v, st in (r.paths or [(r.value, r.st)]):
            sh += shared_with_self(st, r.self_ref, v)
        if not sh: chk.ok("no-shared-state", con, where, "nothing mutable is shared")
        for oid, p, mp, kind in sh:
            chk.bad("no-shared-state", con, where, f"returned value{p} is (a view of) the object's own {kind} self{mp}")


# ------------------------------------------------------------------ C03
def pre_owned(r):
    """oids that existed before the call and belong to the receiver or to argument objects (not plain argument data)."""
    out = {}
    vals = list(r.args.get("args", [])) + list((r.args.get("kw") or {}).values())
    for v in vals:
        for x in (v.vals if isinstance(v, Union) else [v]):
            if isinstance(x, Ref) and isinstance(r.pre.heap.get(x.oid), InstO):
                for oid, p in reachable(r.pre, x).items(): out.setdefault(oid, p)
    return out


def same_value(I, st, a, b):
    if a is b or a == b: return True
    if isinstance(a, (Ref, TupleV)) and isinstance(b, (Ref, TupleV)):
        return I.node_of(a, st) is I.node_of(b, st) and not has_top(I.node_of(a, st))
    return False


def arg_leaves(r):
    """Leaves of the plain (non-object) arguments of a call."""
    return {n for n in _arg_nodes(r)}


def _arg_nodes(r):
    out = []
    for v in list(r.args.get("args", [])) + list((r.args.get("kw") or {}).values()):
        if isinstance(v, Ref) and isinstance(r.pre.heap.get(v.oid), InstO): continue
        if isinstance(v, Node): out += list(leaves(v))
    return out


def c03(chk):
    E = chk.entries()
    I = E.I
    for r in E.all():
        if getattr(r, "member", None) is None:
            rule_members = False
            con = short(r.name.split("(")[0].split("@")[0])
        else:
            if is_mutator(r.member, r.kind): continue
            con = f"{short(r.cls.mod.name)}.{r.cls.name}.{r.member}"
        if con.endswith("train_single_epoch") or con.endswith("PotGNN.forward"): continue
        if r.error:
            chk.unknown("query-leaves-state", con, "", r.error); continue
        where = (r.fn.mod.rel, r.fn.node.lineno)
        own = pre_owned(r)
        probs = []
        sets = {}
        for e in r.events:
            if e.kind == "global":
                probs.append((e, f"rebinds module variable {e.data.get('name')}"))
            elif e.kind == "mut" and e.data["oid"] in own:
                how = e.data["how"]
                probs.append((e, f"in-place update ({how}) of state self{own[e.data['oid']]}"))
            elif e.kind == "mut" and origin_is_global(I, e.data["oid"], r):
                probs.append((e, f"in-place update ({e.data['how']}) of a module-level object"))
            elif e.kind == "setfield" and e.data["oid"] in own:
                sets.setdefault((e.data["oid"], e.ctx[-1] if e.ctx else ""), []).append(e)
        if sets:
            # second run from an arbitrary content of every slot that the query stores into
            r2, slots = rerun_havoc(E, r, sets)
            if r2 is None or r2.error:
                chk.unknown("query-leaves-state", con, where, "cache rerun failed: " + str(r2 and r2.error))
            else:
                probs += cache_violations(E, r2, slots)
        if not probs: chk.ok("query-leaves-state", con, where, f"{len(sets)} cache stores accepted")
        for e, msg in probs:
            chk.bad("query-leaves-state", f"{con} via {fname(e)}", e.site, msg)
    cache_rule(chk)


def origin_is_global(I, oid, r):
    return oid in I.module_oids if hasattr(I, "module_oids") else False


def havoc(I, v, st, tag):
    if isinstance(v, Node):
        n = I.g.leaf("slot:" + tag, v.shape, v.dt if v.dt != "N" else None)
        if v.ival is not None and n.ival is None and v.shape == (): n.ival = new_sym(("slot", tag), 0)
        return n
    if isinstance(v, TupleV): return TupleV([havoc(I, x, st, f"{tag}[{i}]") for i, x in enumerate(v.items)], v.names)
    if isinstance(v, Ref):
        o = st.heap.get(v.oid)
        if isinstance(o, ArrO):
            c = I.content(st, v)
            I.cur = ("<slot>", tag, 0)
            return I.new_arr(st, I.g.leaf("slot:" + tag, c.shape, c.dt), ("slot", tag), lib=o.lib, origin=("slot", tag))
        if isinstance(o, ListO):
            el = o.items[0] if o.items else o.elem
            I.cur = ("<slot>", tag, 0)
            return I.alloc(st, ListO(None, havoc(I, el, st, tag + "[]") if el is not None else None, new_sym(("slotlen", tag), 0), o.kind), ("slot", tag), ("slot", tag))
        if isinstance(o, InstO) and changeable(o.cls):
            # the object met in an earlier call may have been another one, or the same one in an earlier state
            I.cur = ("<slot>", tag, 0)
            return Union([v, I.alloc(st, InstO(o.cls, dict(o.fields), o.tag), ("slot", tag), ("slot", tag))])
    return v


def changeable(cls):
    """Objects of this class can be given another state through their public interface."""
    for c in cls.mro():
        if not isinstance(c, ClassV):
            if "torch" in str(getattr(c, "path", getattr(c, "name", c))): return True
            continue
        for k, m in c.attrs.items():
            if isinstance(m, PropV) and m.fset is not None or isinstance(m, FuncV) and is_mutator(k, "method"): return True
    return False


def rerun_havoc(E, r, sets):
    I = E.I
    st = r.pre.fork()
    slots = {}
    for (oid, _), evs in sets.items():
        o = st.heap.get(oid)
        if not isinstance(o, InstO): return None, None
        f = dict(o.fields)
        for e in evs:
            k = e.data["field"]
            if (oid, k) in slots: continue
            # the post-state value describes what the slot normally holds
            post = r.st.heap[oid].fields.get(k) if r.st is not None and oid in r.st.heap else e.data["new"]
            if r.st is not None:
                for rid in reachable(r.st, post):
                    if rid not in st.heap: st.heap[rid] = r.st.heap[rid]
            old = f.get(k)
            if isinstance(old, Node) and old.is_const() and old.const is None: 
                slots[(oid, k)] = None
                continue
            f[k] = havoc(I, post if old is None else old, st, f"{oid}.{k}")
            slots[(oid, k)] = f[k]
        st.heap[oid] = InstO(o.cls, f, o.tag)
    r2 = E.S.run(r.name + "<havoc>", r.fn, r.args["args"], r.args["kw"], st)
    return r2, slots


def cache_violations(E, r, slots):
    """Field stores during a query are accepted only as a coherent cache: keyed on the arguments they depend on,
    or filled once from nothing but the object's fixed state."""
    I = E.I
    out = []
    own = pre_owned(r)
    slotroots = {oid for oid in own if I.origin.get(oid, ("",))[0] == "slot"}
    for e in r.events:
        if e.kind == "mut" and e.data["oid"] in slotroots:
            out.append((e, "edits a value handed over from an earlier call in place"))
        elif e.kind == "mut" and e.data["oid"] in own and isinstance(r.pre.heap.get(e.data["oid"]), (ArrO, ListO)):
            out.append((e, f"in-place update of state self{own[e.data['oid']]}"))
    evs = [e for e in r.events if e.kind == "setfield" and e.data["oid"] in own]
    argl = arg_leaves(r)
    keyed = {}
    for e in evs:
        n = e.data["new"]
        if isinstance(n, Node): keyed.setdefault(e.data["oid"], {}).setdefault(e.data["field"], []).append(n)
    for e in evs:
        oid, f = e.data["oid"], e.data["field"]
        n = I.node_of(e.data["new"], r.st or r.pre)
        if isinstance(e.data["new"], Node) and e.data["new"] is e.data["old"]: continue
        ls = leaves(n)
        stale = [l for l in ls if isinstance(l.attr, str) and l.attr.startswith("slot:")]
        # a value computed from a slot is only stale when the dependence is not the hit path itself
        direct = data_leaves(n)
        stale = [l for l in direct if isinstance(l.attr, str) and l.attr.startswith("slot:")]
        if stale:
            out.append((e, f"the value stored in field {f} depends on what an earlier call left there")); continue
        lits = [(c, p) for c, p in pc_list(e.pc) if c is not None]
        if slots.get((oid, f), 0) is None and not (data_leaves(n) & argl): continue
        guarded = False
        for c, p in lits:
            if not ((c.op == "cmp:==" and not p) or (c.op == "not" and p and c.args[0].op == "cmp:==")): continue
            cc = c if c.op == "cmp:==" else c.args[0]
            for kf, kns in keyed.get(oid, {}).items():
                if key_compare(cc, oid, kf, slots.get((oid, kf)), kns): guarded = True
        if guarded: continue
        cls = getattr(r.pre.heap[oid].cls, "name", "object")
        out.append((e, f"stores a new value in field {f} of {cls} that is not a cache keyed by the current arguments, so later answers can change"))
    return out


def key_compare(c, oid, field, slot, news):
    """c compares the remembered key (the slot, or its value at the head of a loop) with exactly the key that is stored next to the value."""
    tag = f"('f', {oid}, {field!r})"
    for i in (0, 1):
        old, new = c.args[i], c.args[1 - i]
        is_slot = old is slot or (slot is not None and getattr(slot, "ival", None) is not None and old.ival == slot.ival) \
            or (old.op == "loopphi" and tag in str(old.attr))
        if is_slot and any(new is k or (new.ival is not None and new.ival == k.ival) for k in news): return True
    return False


def data_leaves(node):
    seen, todo, out = set(), [node], set()
    while todo:
        n = todo.pop()
        if n.id in seen: continue
        seen.add(n.id)
        if n.op == "leaf": out.add(n)
        todo += [a for a in n.args if isinstance(a, Node)]
    return out


def cache_rule(chk):
    pass


# ------------------------------------------------------------------ C04
def obj_equal(I, a, b, sa, sb):
    if a is b or a == b: return True
    return False


def diff_state(I, pre, post, ref):
    """Differences of everything reachable from ref between two states."""
    out = []
    for oid, p in reachable(pre, ref).items():
        a, b = pre.heap.get(oid), post.heap.get(oid)
        if a is b or a == b: continue
        if isinstance(a, InstO) and isinstance(b, InstO):
            for k in sorted(set(a.fields) | set(b.fields)):
                x, y = a.fields.get(k), b.fields.get(k)
                if x is y or x == y: continue
                out.append((oid, f"{p}.{k}"))
        else: out.append((oid, p))
    return out


def c04(chk):
    E = chk.entries()
    I = E.I
    n = 0
    E.all()
    for cn in ("InterpolationModel", "ARTModel"):
        c = chk.anchor("ramannoodle.pmodel." + cn)
        for m, st, tag in E.instance(c):
            for nme, kind, f in E.class_members(c):
                if nme == "get_masked_model":
                    for r in E.run_member(c.mod.name + "." + c.name, c, m, st, tag, nme, kind, f): copied(chk, E, r, m, cn, nme, tag)
                if not (is_mutator(nme, kind)): continue
                for r in E.run_member(c.mod.name + "." + c.name, c, m, st, tag, nme, kind, f):
                    con = f"{cn}.{nme}"
                    if r.error:
                        chk.unknown("rejected-update", con, "", r.error); continue
                    # --- every exceptional exit
                    for exc, est in r.raises:
                        d = diff_state(I, r.pre, est, m)
                        k = f"{con}: {exc.name()} from {exc_fn(exc)}"
                        if d: chk.bad("rejected-update", k, exc.site, f"state self{d[0][1]} has already been changed when {exc.name()} ({exc.why or 'raised'}) leaves {r.name}")
                        else: chk.ok("rejected-update", k, exc.site, "nothing changed on this exit")
                        n += 1
                    # --- normal exits keep the three sequences parallel
                    if r.st is not None and nme.startswith("add_") and kind == "method":
                        lockstep(chk, E, r, m, cn, nme, tag)
    chk.info["exceptional_exits"] = n


def exc_fn(exc):
    return exc.trail[-1][0].rsplit(".", 1)[-1] if exc.trail else "?"


def length_of(I, st, v):
    if isinstance(v, Ref):
        o = st.heap.get(v.oid)
        if isinstance(o, ListO): return o.length
        if isinstance(o, ArrO):
            c = I.content(st, v)
            return c.shape[0] if c.shape else None
    return None


def copied(chk, E, r, m, cn, nme, tag):
    """A masked copy has as many degrees of freedom, interpolations and mask entries as the original."""
    con = f"{cn}.{nme}" + (" (dummy)" if tag else "")
    where = (r.fn.mod.rel, r.fn.node.lineno)
    for v, st in r.paths:
        for x in ("cart_basis_vectors", "interpolations", "mask"):
            a, b = query(E, r.pre, m, x), query(E, st, v, x) if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), InstO) else None
            ref = a
            if b is None or ref is None: chk.unknown("lockstep", con, where, f"length of {x} not known"); continue
            d = st.norm(b) - st.norm(ref)
            lost = st.norm(b) == D0 and not st.norm(ref).is_const()      # models with at least one degree of freedom
            chk.decide(True if d == D0 else False if lost or may_differ(E.I, d, st) else None, "lockstep", con, where, f"{x} of the copy: {st.norm(b)}, of the original: {st.norm(ref)}")


def may_differ(I, d, st):
    """The difference of two lengths is not zero: always, or whenever a slice really cuts something off, or
    because one of them is a free extent of the model (any number of degrees of freedom is possible)."""
    if dim_sign(d, st.mins) in ("+", "-"): return True
    for s in d.syms():
        c = I.slice_caps.get(s)
        if c is not None and (d + Dim.sym(s) == c[1] or d - Dim.sym(s) == D0 - c[1]): return True
    if len(d.syms()) == 1 and all(isinstance(s, str) and s in ("D",) for s in d.syms()): return True
    return False


def lockstep(chk, E, r, m, cn, nme, tag):
    I = E.I
    con = f"{cn}.{nme}" + (" (dummy)" if tag else "")
    rule = "lockstep"
    base, itp, mask = (query(E, r.pre, m, x) for x in ("cart_basis_vectors", "interpolations", "mask"))
    where = (r.fn.mod.rel, r.fn.node.lineno)
    for v, st in r.paths:
        new = [query(E, st, m, x) for x in ("cart_basis_vectors", "interpolations", "mask")]
        if None in (base, itp, mask) or None in new:
            chk.unknown(rule, con, where, f"lengths not known: {[base, itp, mask]} -> {new}"); continue
        db, di, dm = (st.norm(b) - st.norm(a) for a, b in zip((base, itp, mask), new))
        if db == dm and (di == db or tag and di == D0): chk.ok(rule, con, where, f"all grow by {db}")
        else:
            def definite(x): return may_differ(I, x, st)
            bad = definite(db - dm) or (definite(di - db) if not tag else definite(di))
            chk.decide(False if bad else None, rule, con, where, f"basis vectors grow by {db}, interpolations by {di}, mask by {dm}")


def query(E, st, ref, name):
    """Length of what a documented property returns in a state."""
    I = E.I
    o = st.heap[ref.oid]
    p, _ = o.cls.lookup(name)
    if not isinstance(p, PropV): return None
    r = E.S.run(f"query {name}", p.fget, [ref], {}, st)
    if r.st is None: return None
    return length_of(I, r.st, r.value)
