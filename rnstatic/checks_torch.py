"""C18, C19: training protocol and batching of the neural network."""
from .framework import *
from .elem import *
from .checks_spectra import verdict, leaf, net_hook, gnn_prediction

TRAIN = "ramannoodle.pmodel.torch._train.train_single_epoch"
FORWARD = "ramannoodle.pmodel.torch._gnn.PotGNN.forward"


def batches_of(node):
    """Batches a node depends on: {(set name, number)}."""
    return {n.attr[:2] for n in deps(node) if n.op == "batch"} if node is not None else set()


def flags(st, ref):
    """Constant training flags of every module reachable from ref."""
    out = set()
    for oid in reachable(st, ref):
        o = st.heap.get(oid)
        if isinstance(o, InstO) and isinstance(o.fields.get("training"), Node):
            c = o.fields["training"].const
            out.add(c if c is not NO else None)
    return out


def mode_hook(I, f, args, kw, st):
    r = net_hook(I, f, args, kw, st)
    if r is not NotImplemented: I.events[-1].data["flags"] = flags(st, args[0])
    return r


def epoch(E, nt, nv, hooked, start=True):
    """One epoch with nt training and nv validation batches; the network starts in the given mode (the previous epoch leaves it in evaluation mode)."""
    I = E.I
    f = I.get(TRAIN)
    v = E.instance_args(f, E.st)
    if not v: return None, None
    _, given, st = v[0]
    given, st = E.special(TRAIN, f, given, st)
    I.batches = {given["training_set"]: ("train", nt), given["validation_set"]: ("val", nv)}
    st = st.fork()
    for oid in reachable(st, given["model"]):
        o = st.heap.get(oid)
        if isinstance(o, InstO) and isinstance(o.fields.get("training"), Node):
            st.heap[oid] = InstO(o.cls, dict(o.fields, training=I.const(start)), o.tag)
    if hooked: I.hooks[FORWARD] = mode_hook
    try: return E.call_method(f"epoch {nt} {nv}", f, None, st, {}, given), given
    finally:
        I.batches = None
        I.hooks.pop(FORWARD, None)


def conditions(e): return [c for c, p in pc_list(e.pc) if c is not None]


def c18(chk):
    f = chk.anchor(TRAIN)
    chk.anchor(FORWARD)
    where = (f.mod.rel, f.node.lineno)
    for nt, nv in ((3, 2), (1, 1)) + (((4, 3),) if chk.tier == "thorough" else ()):
        E = chk.entries(("epoch", nt, nv))
        r, given = epoch(E, nt, nv, True, (nt, nv) == (1, 1))
        con = "train_single_epoch"
        if r is None or r.error or r.st is None:
            chk.unknown("protocol", con, where, f"no result {r and (r.error or r.raises[:1])}"); continue
        protocol(chk, E, r, given, nt, nv, con, where)
        reported(chk, E, r, nt, nv, con, where)
    E = chk.entries(("epoch", "full"))
    r, given = epoch(E, 1, 1, False, False)
    if r is None or r.error: chk.unknown("layer-mode", "train_single_epoch", where, str(r and r.error)); return
    for e in r.events:
        if e.kind != "batchnorm": continue
        b = {x for x, k in batches_of(e.data["node"])}
        tr = e.data["training"]
        c = tr.const if isinstance(tr, Node) and tr.const is not NO else None
        if not b or c is None: chk.unknown("layer-mode", f"line {e.site[1]}", e.site[:2], "batch or mode not known"); continue
        for x in b: chk.decide(c is (x == "train"), "layer-mode", f"batch normalisation of {'training' if x == 'train' else 'validation'} batches", e.site[:2], f"training flag is {c}")


def protocol(chk, E, r, given, nt, nv, con, where):
    ev = r.events
    always = {c.id for c, p in pc_list(r.st.pc) if c is not None}    # what holds in every epoch that returns
    # the loaders
    seen = {}
    for e in ev:
        if e.kind == "loader-iter":
            nm, lo = e.data["name"], e.data["loader"].fields
            seen[nm] = seen.get(nm, 0) + 1
            w = e.site[:2]
            dl = lo.get("drop_last")
            if dl is not None:
                c = E.I.node_of(dl, r.st)
                chk.decide((None if has_top(c) else False) if c.const is NO else not c.const, "whole set", f"{con} {nm} loader", w, "drop_last leaves out the samples of an incomplete batch")
            else: chk.ok("whole set", f"{con} {nm} loader", w, "no samples are dropped")
            for k in ("sampler", "batch_sampler"):
                if k in lo and not E.I.is_none(lo[k]): chk.unknown("whole set", f"{con} {nm} {k}", w, "custom sampler")
    for nm, n in (("train", nt), ("val", nv)):
        if not seen.get(nm): chk.unknown("protocol", f"{con} {nm}", where, "the batches of the set are not recognised"); return
    # forwards
    model = None
    fw = {"train": {}, "val": {}}
    for e in ev:
        if e.kind != "forward": continue
        w = e.site[:2]
        parts = [{(n.attr) for n in deps(x) if n.op == "batch"} if x is not None else set() for x in e.data["nodes"]]
        bs = {a[:2] for p in parts for a in p}
        if len(bs) != 1: chk.unknown("protocol", f"{con} forward line {e.site[1]}", w, f"inputs come from {sorted(bs)}"); continue
        b = bs.pop()
        e.data["batch"] = b
        nm = b[0]
        fw[nm].setdefault(b[1], []).append(e)
        good = [p == {b + (j,)} for j, p in enumerate(parts)]
        chk.decide(all(good), "inputs", f"{con} {nm} forward", w, f"lattice, atomic numbers and positions are those of the batch: {parts}")
        fl = e.data.get("flags") or set()
        want = nm == "train"
        chk.decide(None if not fl or None in fl and (not want) not in fl else fl == {want}, "mode", f"{con} {nm} forward", w,
                   f"training flags of the network's modules are {sorted(map(str, fl))}, must all be {want}")
        unconditional(chk, E, e, "protocol", f"{con} {nm} forward", b, always)
    for nm, n in (("train", nt), ("val", nv)):
        for k in range(n):
            m = len(fw[nm].get(k, []))
            chk.decide(m == 1 if nm == "train" else m >= 1, "evaluated once", f"{con} {nm} batch {k} of {n}", where, f"evaluated {m} times")
    # losses
    outs = {}
    for e in ev:
        if e.kind != "loss": continue
        o, t = e.data["out"], e.data["target"]
        b = batches_of(o) | batches_of(t)
        w = e.site[:2]
        if len(b) != 1:
            chk.decide(None if not b else False, "loss", f"{con} loss line {e.site[1]}", w, f"prediction and target come from {sorted(b)}"); continue
        b = b.pop()
        el = Elem(E.I, r.st)
        el.leafmap = {("op", "batch"): batch_leaf, ("op", "net"): net_leaf}
        i, j = Dim.sym("i"), Dim.sym("j")
        verdict(chk, "loss", f"{con} {b[0]} target", w, el.at(t, (i, j)), leaf(("batch",) + b + (3,), i, j), el, "target of the loss is the batch's polarizabilities")
        nets = [n for n in deps(o) if n.op == "net"]
        if len(nets) == 1: verdict(chk, "loss", f"{con} {b[0]} prediction", w, el.at(o, (i, j)), leaf(("net", nets[0].id), i, j), el, "first argument of the loss is the network's output")
        else: chk.unknown("loss", f"{con} {b[0]} prediction", w, "network output not recognised")
    # gradients and steps: typestate of the accumulated gradient, inductive over epochs
    def cleared(e, grads):
        """Gradients after a zero_grad: one that is skipped in some calls may leave them."""
        cs = [c for c in conditions(e) if c.id not in always and not c.is_const()]
        if not cs or not grads: return []
        chk.decide(None if any(has_top(c) for c in cs) else False, "gradient", f"{con} gradients are cleared", e.site[:2], f"the gradients are only cleared under a condition ({', '.join(c.op for c in cs)})")
        return []
    for rnd in range(2):
        grads = [] if rnd == 0 else list(grads)
        carried = list(grads)
        done, stepped = [], []
        for e in ev:
            w = e.site[:2]
            if e.kind == "backward":
                b = batches_of(e.data["node"])
                if len(b) != 1: chk.decide(None if not b else False, "gradient", f"{con} backward", w, f"gradient of a loss that depends on batches {sorted(b)}"); b = {("?", 0)}
                b = b.pop()
                chk.decide(b[0] == "train" if b[0] != "?" else None, "gradient", f"{con} backward set", w, f"gradient computed from the {b[0]} set")
                chk.decide(not grads, "gradient", f"{con} gradients are cleared", w, f"gradients of {grads} are still there when the gradient of {b} is computed" + (" (left from the previous epoch)" if carried and grads == carried else ""))
                grads.append(b); done.append(b)
                unconditional(chk, E, e, "gradient", f"{con} backward", b, always)
            elif e.kind == "optim":
                if e.data["what"] == "zero_grad": grads = cleared(e, grads)
                elif e.data["what"] == "step":
                    chk.decide(len(grads) == 1 and grads[0] not in stepped, "step", f"{con} step", w, f"optimizer step uses the gradients of {grads}, stepped before: {stepped}")
                    stepped += grads[:1]
                    unconditional(chk, E, e, "step", f"{con} step", grads[0] if grads else None, always)
                elif e.data["what"] not in ("state_dict", "add_param_group", "__repr__"): chk.unknown("step", f"{con} optimizer.{e.data['what']}", w, "not modelled")
            elif e.kind == "param-change":
                if e.data["what"] == "zero_grad": grads = cleared(e, grads)
                else: chk.bad("step", f"{con} {e.data['what']}", w, "changes the network's parameters outside the optimizer")
            elif e.kind == "reset": chk.bad("step", f"{con} reset", w, "changes the network's parameters outside the optimizer")
        for k in range(nt):
            n = done.count(("train", k))
            chk.decide(n == 1, "gradient", f"{con} batch {k} of {nt}", where, f"{n} gradient computations")
            n = stepped.count(("train", k))
            chk.decide(n == 1, "step", f"{con} batch {k} of {nt}", where, f"{n} optimizer steps")
        if not grads: break
    # order: every training forward sees the step of the batch before it
    order = [(e.kind, e.data.get("batch")) for e in ev if e.kind == "forward" or e.kind == "optim" and e.data["what"] == "step"]
    prev = None
    for k, b in order:
        if k == "forward" and b and b[0] == "train":
            chk.decide(prev is None or prev[0] != "forward" or prev[1][0] != "train", "step", f"{con} order", where, "each training batch is followed by its step before the next is evaluated")
        prev = (k, b or ("?", 0))


def unconditional(chk, E, e, rule, con, b, always):
    for c in conditions(e):
        if c.id in always: continue
        d = list(deps(c))
        if any(n.op in ("batch", "net", "loss") or n.op == "dim" and "bs" in str(n.ival) for n in d):
            chk.bad(rule, con + " always happens", e.site[:2], f"happens only under a condition on the batch ({c.op})")
        elif not c.is_const() and not has_top(c): chk.bad(rule, con + " always happens", e.site[:2], f"happens only under a condition ({c.op})")
        elif not c.is_const(): chk.unknown(rule, con + " always happens", e.site[:2], f"happens under the condition {c.op}")
        else: chk.ok(rule, con + " always happens", e.site[:2])
    if not conditions(e): chk.ok(rule, con + " always happens", e.site[:2])


def batch_leaf(n, idx, env): return P.atom(("leaf", ("batch",) + n.attr, tuple(idx)))
def net_leaf(n, idx, env): return P.atom(("leaf", ("net", n.id), tuple(idx)))


def reported(chk, E, r, nt, nv, con, where):
    n = E.I.node_of(r.value, r.st)
    if n.op != "tuple" or len(n.args) != 3: chk.unknown("reported", con, where, "result is not a tuple of three"); return
    losses, nets = {}, {}
    for e in r.events:
        if e.kind == "loss":
            for b in batches_of(e.data["out"]): losses.setdefault(b, []).append(("loss", e.data["out"].id, e.data["target"].id))
        if e.kind == "forward" and "batch" in e.data: nets.setdefault(e.data["batch"], []).append(e)
    for x, nm, label in ((n.args[0], "train", "training loss"), (n.args[1], "val", "validation loss"), (n.args[2], "val", "variance")):
        bs = {b[0] for b in batches_of(x)}
        chk.decide(None if not bs and has_top(x) else bs == {nm}, "reported", f"{con} {label} set", where, f"computed from {sorted(bs)}")
    def mk():
        el = Elem(E.I, r.st)
        el.leafmap = {("op", "batch"): batch_leaf, ("op", "net"): net_leaf,
                      ("op", "loss"): lambda n, idx, env: P.atom(("leaf", ("loss", n.args[0].id, n.args[1].id), ()))}
        return el
    for x, nm, m, label in ((n.args[0], "train", nt, "training loss"), (n.args[1], "val", nv, "validation loss")):
        el = mk()
        want = P.const(0.0)
        if any(len(losses.get((nm, k), [])) != 1 for k in range(m)): chk.unknown("reported", f"{con} {label}", where, "losses not recognised"); continue
        for k in range(m): want = want + leaf(losses[nm, k][0]) * P.const(1.0 / m)
        got = el.at(x, ())
        eq = equal(got, want, 1e-9)
        if eq is False and weighted(got): chk.unknown("reported", f"{con} {label}", where, "weighted by batch sizes"); continue
        verdict(chk, "reported", f"{con} {label}", where, got, want, el, f"mean of the losses of the {m} batches of the set")
    el = mk()
    j = Dim.sym("j")
    want = P.const(0.0)
    netid = {}
    for q in deps(n.args[2]):
        if q.op == "net":
            for b in batches_of(q): netid.setdefault(b, set()).add(q.id)
    for k in range(nv):
        ids = netid.get(("val", k), set())
        if len(ids) != 1: chk.decide(None if has_top(n.args[2]) else False, "reported", f"{con} variance", where, f"validation batch {k} is not used"); return
        i = ids.pop()
        q = E.g.nodes[i] if hasattr(E.g, "nodes") and isinstance(E.g.nodes, list) else None
        B = next((z.shape[0] for z in deps(n) if z.id == i), None)
        t = fresh_sym()
        v = leaf(("net", i), Dim.sym(t), j)
        Bp = dim_poly(el.norm(B))
        s1, s2 = summation(v, t, el.norm(B)), summation(v * v, t, el.norm(B))
        # unbiased (torch default)
        want = want + (s2 - s1 * s1 * power(Bp, -1)) * power(Bp - P.const(1.0), -1) * P.const(1.0 / nv)
    got = el.at(n.args[2], (j,))
    eq = equal(got, want, 1e-9)
    if eq is False:
        chk.unknown("reported", f"{con} variance", where, "not the mean of the variances over each batch") if weighted(got) else chk.bad("reported", f"{con} variance", where, f"is {str(got)[:200]}, expected the mean over batches of the variance over samples")
    else: chk.decide(eq, "reported", f"{con} variance", where, "mean over batches of the variance over samples " + str(el.why)[:100])


def weighted(p): return "bs" in str(p)


# ---------------------------------------------------------------------------------------------------- C19
from .reads import Reads, TOP, deps_all

PRED = "ramannoodle.pmodel.torch._gnn.PotGNN.calc_polarizabilities"
IN = ("batch.lattice", "batch.atomic_numbers", "batch.positions")
NET = "ramannoodle.pmodel.torch._gnn.PotGNN"


def set_mode(E, st, ref, value):
    st = st.fork()
    for oid in reachable(st, ref):
        o = st.heap.get(oid)
        if isinstance(o, InstO) and isinstance(o.fields.get("training"), Node):
            st.heap[oid] = InstO(o.cls, dict(o.fields, training=E.I.const(value)), o.tag)
    return st


def run_forward(E, f, m, st, S, tag):
    """Forward pass on a batch of S samples."""
    st = st.fork()
    given = {"lattice": E.S.arr(st, IN[0], (S, Dim.const(3), Dim.const(3)), "f", lib="torch"),
             "atomic_numbers": E.S.arr(st, IN[1], (S, E.N), "i", lib="torch"),
             "positions": E.S.arr(st, IN[2], (S, E.N, Dim.const(3)), "f", lib="torch")}
    return E.call_method(tag, f, m, st, {}, given)


def c19(chk):
    c = chk.anchor(NET)
    fw, _ = c.lookup("forward")
    pr, _ = c.lookup("calc_polarizabilities")
    if fw is None or pr is None: raise Vanished(NET + ".forward")
    locality(chk, fw)
    coverage(chk, pr, fw)


def locality(chk, fw):
    """Every element of row s of the forward pass is computed from sample s only, whatever was predicted before."""
    E = chk.entries("locality")
    where = (fw.mod.rel, fw.node.lineno)
    m, st, r0 = E.gnn()
    if st is None: chk.unknown("locality", "PotGNN.forward", where, f"no model {r0 and (r0.error or r0.raises[:1])}"); return
    st = set_mode(E, st, m, False)
    S = E.S.dim("batch", 3)
    one = D1
    # histories: sizes of the batches predicted before
    cases = [("first prediction", (), S), ("single sample", (), one), ("same size again", (S,), S), ("after a larger batch", (S + D1,), S),
             ("after a smaller batch", (S - D1,), S), ("single sample after a batch", (S,), one), ("batch after a single sample", (one,), S),
             ("after two other batches", (S, S + D1), S)]
    for label, before, size in cases:
        s1 = st
        ok = True
        for k, b in enumerate(before):
            r = run_forward(E, fw, m, s1, b, f"forward {label} before {k}")
            if r.error or r.st is None: ok = False; break
            s1 = r.st
        con = f"PotGNN.forward [{label}]"
        if not ok: chk.unknown("locality", con, where, f"no result {r.error or r.raises[:1]}"); continue
        r = run_forward(E, fw, m, s1, size, f"forward {label}")
        if r.error: chk.unknown("locality", con, where, r.error); continue
        if r.st is None:
            chk.bad("locality", con, where, f"the prediction always fails: {[str(e) for e, _ in r.raises][:2]}"); continue
        n = E.I.node_of(r.value, r.st)
        R = Reads(E.I, r.st, r.st.norm(size), set(IN))
        if n.shape is None or len(n.shape) != 2: chk.unknown("locality", con, where, f"shape {n.shape}"); continue
        srow = Dim.const(0) if size == one else Dim.sym("s")
        if size != one: R.bounds["s"] = r.st.norm(size)
        tops, wrong = 0, set()
        for k in range(6):
            for x in R.query(n, (srow, Dim.const(k))):
                if x == TOP or isinstance(x, Dim) and any(isinstance(y, tuple) and y[0] == "val" for y in x.syms()): tops += 1
                elif x != srow: wrong.add("samples other than its own" if isinstance(x, Dim) else "the number of samples" if x == "S" else str(x))
        if size == one and before and any(d.syms() & S.syms() for x in deps_all(n) for d in x.shape or () if isinstance(d, Dim)):
            wrong.add("rows left over from an earlier prediction")
        if tops and R.crossed: wrong.add("rows in " + R.crossed[0])
        chk.decide(False if wrong else None if tops else True, "locality", con, where,
                   f"the prediction of a sample is computed from {sorted(wrong)}" if wrong else "; ".join(R.why[:3]) if tops else "row s is computed from sample s only")


def coverage(chk, pr, fw):
    """All samples are predicted once each, in evaluation mode, and returned in their places (fixed numbers of samples)."""
    where = (pr.mod.rel, pr.node.lineno)
    con = "PotGNN.calc_polarizabilities"
    key = fw.mod.name + "." + fw.qual()

    def run(S):
        E = chk.entries(("coverage", S))
        m, st, r0 = E.gnn()
        if st is None: return E, None, None
        st = set_mode(E, st, m, True)
        given = {"positions_batch": E.S.arr(st, "positions_batch", (Dim.const(S), E.N, Dim.const(3)), "f")}
        E.I.hooks[key] = mode_hook
        try: return E, m, E.call_method(f"predict {S}", pr, m, st, {}, given)
        finally: del E.I.hooks[key]

    def rows(r):
        out = []
        for e in r.events:
            if e.kind == "forward":
                s = e.data["nodes"][2].shape
                out.append(s[0].value() if s and s[0].is_const() else None)
        return out
    E, m, r = run(250)
    if r is not None and not r.error and r.st is None:
        chk.bad("coverage", con + " 250 samples", where, f"always fails: {[str(e) for e, _ in r.raises][:2]}"); return
    if r is None or r.error: chk.unknown("coverage", con, where, f"no result {r and r.error}"); return
    ks = [k for k in rows(r) if k]
    K = max(ks) if ks else 100
    sizes = {1, 2, 3, 250, K, K + 1, 2 * K, 2 * K + 1, max(1, K - 1)}
    if chk.tier == "thorough": sizes |= {5, 7, 3 * K, 3 * K + 1, 4 * K - 1, 5 * K + 3}
    sizes = {s for s in sizes if s <= 20 * K}
    for S in sorted(sizes):
        E, m, r = run(S)
        c2 = f"{con} {S} samples"
        if r is None or r.error: chk.unknown("coverage", c2, where, f"{r and r.error}"); continue
        if r.st is None: chk.bad("coverage", c2, where, f"always fails: {[str(e) for e, _ in r.raises][:2]}"); continue
        for e in r.events:
            if e.kind == "forward":
                fl = e.data.get("flags") or set()
                chk.decide(None if not fl or fl == {None} else fl == {False}, "evaluation mode", con, e.site[:2], f"training flags of the network's modules: {sorted(map(str, fl))}")
        n = E.I.node_of(r.value, r.st)
        if n.shape is None or n.shape[0] != Dim.const(S):
            chk.decide(None if n.shape is None or not n.shape[0].is_const() else False, "coverage", c2, where, f"result has shape {n.shape}"); continue
        edges = {0, S - 1}
        for b in range(0, S + 1, max(1, K)): edges |= {b - 1, b, b + 1}
        bad, und = [], []
        for i in sorted(x for x in edges if 0 <= x < S):
            el = Elem(E.I, r.st)
            el.leafmap = {("op", "net"): lambda n, idx, env, el=el: P.atom(("leaf", "net", (sample_of(el, n, idx[0], env), idx[1])))}
            got = el.at(n, (Dim.const(i), Dim.const(0), D1))
            seen = {AT.vals[k][2][0] for k in got.atoms() if AT.vals[k][0] == "leaf" and AT.vals[k][1] == "net"}
            if any(AT.vals[k][0] == "top" for k in got.atoms()) or opaque(got): und.append((i, el.why[:2]))
            elif seen != {("sample", i)}: bad.append((i, seen))
        if bad: chk.bad("coverage", c2, where, "; ".join(f"row {i} holds " + (", ".join(f"the prediction for {x}" for x in map(str, s)) or "no prediction") for i, s in bad[:3]))
        elif und: chk.unknown("coverage", c2, where, str(und[:2]))
        else: chk.ok("coverage", c2, where, f"{len(edges)} rows at block boundaries")


def sample_of(el, n, row, env):
    """Which sample a row of the network's input is: ("sample", k) when its lattice, elements and positions are sample k's."""
    a, b = Dim.sym("a"), Dim.sym("b")
    p = el.at(n.args[2], (row, a, b), env)
    if len(p.d) == 1:
        (mono, c), = p.d.items()
        if c == 1.0 and len(mono) == 1:
            at = AT.vals[mono[0][0]]
            if at[0] == "leaf" and at[1] == "positions_batch" and at[2][1:] == (a, b) and at[2][0].is_const():
                lat = el.at(n.args[0], (row, a, b), env)
                if equal(lat, leaf("lattice", a, b)) is False: return ("another lattice", str(lat)[:60])
                return ("sample", at[2][0].value())
    return ("positions", str(p)[:80])
