"""Index-space dependence analysis: which samples of a batch an element of a result is computed from.

The batch has a symbolic number S of samples.  Rows of a stacked (batch) graph tensor are written s*U + l with a local
index l in [0, U); integer index tensors are evaluated exactly as polynomials in s, S and local indices, so that
offsets (s*num_nodes), tilings and interleavings can be followed through gathers, scatters and reductions."""
from .elem import *

TOP = "?"


def local(d):
    """Canonical index symbol ranging over [0, d)."""
    if d.is_const() and d.value() == 1: return Dim.const(0)
    return Dim.sym(("loc", str(d)))


class Cond(Exception): pass


class Reads(Elem):
    def __init__(self, I, st, S, inputs):
        super().__init__(I, st)
        self.S, self.inputs = S, inputs
        self.bounds = {}
        self.rmemo, self.vmemo, self.busy, self.approx, self.changed = {}, {}, set(), {}, False
        self.data = {}
        self.cnt = 0
        self.crossed = []

    def loc(self, d):
        r = local(d)
        for s in r.syms(): self.bounds[s] = d
        return r

    def fresh(self, tag):
        t = ("smp", tag)
        self.bounds[t] = self.S
        return Dim.sym(t)

    def row(self, d, tag):
        """A new index over an axis of extent d: (Dim, fresh sample symbol or None)."""
        x = d.div(self.S)
        if x is None and self.S.syms() & d.syms(): self.crossed.append(f"{d} rows for {self.S} samples")
        if x is None or not self.S.syms():
            return self.loc(d), None
        s = self.fresh(tag)
        return s * x + self.loc(x), s

    # -------------------------------------------------------------- bounded division
    def below(self, r, d):
        """Is 0 <= r < d certain?"""
        r, d = self.norm(r), self.norm(d)
        if r.is_const():
            if r.value() < 0: return False
            if d.is_const(): return r.value() < d.value()
            return dim_sign(d - r - D1, self.st.mins if self.st is not None else {}) in ("+", "0", ">=0")
        if len(r.t) == 1 and r.t[0][1] == 1 and len(r.t[0][0]) == 1: 
            b = self.bounds.get(r.t[0][0][0])
            return b is not None and self.norm(b) == d
        # a*q + l with l below a and q below d / a
        for m, c in r.t:
            for s in m:
                b = self.bounds.get(s)
                if b is None: continue
                rest = Dim(((tuple(x for x in m if x != s), c),)) if len(m) > 1 else Dim.const(c)
                k = d.div(rest) if not rest.is_const() or d.is_const() and d.value() % rest.value() == 0 else d.div(rest) if rest.is_const() else None
                if k is not None and self.norm(k) == self.norm(b) and self.below(r - Dim(((m, c),)), rest): return True
        return False

    def divmod(self, x, d):
        x, d = self.norm(x), self.norm(d)
        if x.is_const() and d.is_const() and d.value(): return Dim.const(x.value() // d.value()), Dim.const(x.value() % d.value())
        q, r = Dim.const(0), Dim.const(0)
        for m, c in x.t:
            t = Dim(((m, c),))
            k = t.div(d)
            if k is not None: q = q + k
            else: r = r + t
        if self.below(r, d): return q, r
        for m, c in r.t:
            sm = [y for y in m if y == "s" or isinstance(y, tuple) and y[0] == "smp"]
            if not sm or d.is_const(): continue
            k = Dim(((tuple(y for y in m if y != sm[0]), c),)) if len(m) > 1 else Dim.const(c)
            if k.div(d) is None and d.div(k) is None: self.crossed.append(f"steps of {k} per sample through blocks of {d}")
        return None, None

    # -------------------------------------------------------------- integer values
    def at(self, n, idx, env=None):
        """Index arrays met by the inherited index arithmetic."""
        v = self.val(n, tuple(idx), env or {})
        return dim_poly(v) if v is not None else P.atom(("top", n.id))

    def val(self, n, idx, env):
        key = (n.id, idx, tuple(sorted(env.items(), key=repr)))
        if key in self.vmemo: return self.vmemo[key]
        self.vmemo[key] = None
        v = self.val_(n, idx, env)
        if v is not None: v = self.norm(v)
        self.vmemo[key] = v
        return v

    def bcidx(self, x, idx):
        s = self.shape(x)
        if s is None: return None
        lead = ()
        while len(s) > len(idx) and s[0] == D1: s, lead = s[1:], lead + (Dim.const(0),)     # assignment drops leading axes of extent 1
        if len(s) > len(idx): return None
        tail = idx[len(idx) - len(s):]
        return lead + tuple(Dim.const(0) if d == D1 else i for d, i in zip(s, tail))

    def val_(self, n, idx, env):
        if n.const is not NO:
            return Dim.const(int(n.const)) if isinstance(n.const, (int, bool)) or isinstance(n.const, float) and n.const.is_integer() else None
        if n.ival is not None and n.shape in ((), None): return n.ival.subst(env)
        op = n.op
        if op == "dim": return (n.attr if isinstance(n.attr, Dim) else n.ival).subst(env) if (isinstance(n.attr, Dim) or n.ival is not None) else None
        if op == "arange":
            p = self.e_arange_dims(n, idx, env)
            return p
        if op == "trip":
            b = n.args[0]
            e, nn = b.args
            E = self.shape(e)[1] if self.shape(e) is not None and len(self.shape(e)) > 1 else None
            N = self.val(nn, (), env)
            return self.loc(N) if n.attr < 5 and N is not None else self.loc(E) if n.attr >= 5 and E is not None else None
        if op == "argwhere":
            s = self.shape(n.args[0])
            if s is None or not idx[1].is_const(): return None
            return self.loc(s[idx[1].value()])
        if op in ("add", "sub", "mul", "neg", "floordiv", "mod"):
            vs = []
            for x in n.args:
                i = self.bcidx(x, idx)
                if i is None: return None
                v = self.val(x, i, env)
                if v is None: return None
                vs.append(v)
            if op == "add": return vs[0] + vs[1]
            if op == "sub": return vs[0] - vs[1]
            if op == "mul": return vs[0] * vs[1]
            if op == "neg": return -vs[0]
            q, r = self.divmod(*vs)
            return q if op == "floordiv" else r
        if op in ("cast", "expand", "full", "trunc"):
            x = n.args[0]
            i = self.bcidx(x, idx) if op != "full" else ()
            return self.val(x, i, env) if i is not None else None
        if op == "phi":
            vs = {self.val(x, self.bcidx(x, idx), env) if self.bcidx(x, idx) is not None else None for x in n.args}
            return vs.pop() if len(vs) == 1 else None
        if op == "scatter" or op.startswith("nn:"): return None
        ts = self.sources(n, idx, env)
        if ts is None or len(ts) != 1: return None
        return self.val(ts[0][0], ts[0][1], env) if ts[0][2] is None else None

    def e_arange_dims(self, n, idx, env):
        if len(n.args) <= 1: return idx[0]
        a = self.val(n.args[0], (), env)
        st = self.val(n.args[2], (), env) if len(n.args) == 3 else D1
        return a + st * idx[0] if a is not None and st is not None else None

    # -------------------------------------------------------------- structural operations
    def sources(self, n, idx, env):
        """Elements the element is a copy of: [(node, index, condition)], None when not known."""
        op = n.op
        if op == "index":
            x = n.args[0]
            xs = self.shape(x)
            if xs is None: return None
            try: src = self.source_index(n, xs, n.args[1:], n.attr, idx, env)
            except Exception: return None
            return [(x, tuple(self.norm(i) for i in src), None)] if src is not None else None
        if op == "reshape":
            a, b = self.shape(n.args[0]), self.shape(n)
            if a is None or b is None: return None
            src = self.unshape(a, b, idx)
            return [(n.args[0], src, None)] if src is not None else None
        if op == "transpose":
            if n.attr is None: return None
            src = [None] * len(idx)
            for i, p in enumerate(n.attr): src[p] = idx[i]
            return [(n.args[0], tuple(src), None)]
        if op in ("expand", "item", "squeeze"):
            i = self.bcidx(n.args[0], idx)
            return [(n.args[0], i, None)] if i is not None else None
        if op == "stackx":
            if idx[0].is_const() and 0 <= idx[0].value() < len(n.args):
                return [(n.args[idx[0].value()], tuple(idx[1:]), None)]
            return [(x, tuple(idx[1:]), True) for x in n.args]
        if op == "stack" and len(n.args) > 1: return None
        if op == "tile":
            s = self.shape(n.args[0])
            if s is None or len(s) > len(idx): return None
            tail = idx[len(idx) - len(s):]
            out = []
            for d, i, full in zip(s, tail, self.shape(n)[len(idx) - len(s):]):
                if d == D1: out.append(Dim.const(0)); continue
                if d == full: out.append(i); continue
                q, r = self.divmod(i, d)
                if r is None: return None
                out.append(r)
            return [(n.args[0], tuple(out), None)]
        if op == "repeat_interleave":
            s = self.shape(n.args[0])
            if s is None or len(n.args) < 2: return None
            k = self.val(n.args[1], (), env) if n.args[1].shape == () else None
            if k is None: return None
            if n.attr is None:
                q, r = self.divmod(idx[0], k)
                if q is None: return None
                out, rest = [], q
                for d in reversed(s[1:]):
                    rest, l = self.divmod(rest, d)
                    if rest is None: return None
                    out.insert(0, l)
                return [(n.args[0], (rest,) + tuple(out), None)]
            ax = n.attr % len(s)
            q, r = self.divmod(idx[ax], k)
            if q is None: return None
            return [(n.args[0], tuple(q if i == ax else x for i, x in enumerate(idx)), None)]
        if op in ("concat", "concatl"):
            ax = n.attr if isinstance(n.attr, int) else 0
            if ax < 0: ax += len(idx)
            if op == "concatl": return None
            out = []
            for a in n.args:
                s = self.shape(a)
                if s is None or ax >= len(s): return None
                if self.S.syms() and s[ax].syms() & self.S.syms(): return None
                out.append((a, tuple(self.loc(s[ax]) if i == ax else x for i, x in enumerate(idx)), True))
            return out
        if op == "part":
            ax, k, i = n.attr
            s = self.shape(n.args[0])
            if s is None or s[ax].syms() & self.S.syms(): return None
            return [(n.args[0], tuple(self.loc(s[ax]) if j == ax else x for j, x in enumerate(idx)), None)]
        if op == "update": return self.updated(n, idx, env)
        return None

    def updated(self, n, idx, env):
        x, v, args = n.args[0], n.args[1], n.args[2:]
        xs, spec = self.shape(x), n.attr
        if xs is None or v.shape is None or any(not isinstance(e, tuple) for e in spec) or spec and spec[0] == "view" or any(e[0] == "n" for e in spec): return None
        if len(spec) == 1 and spec[0][0] == "a" and args[0].dt == "b":
            m = args[0]
            if m.shape is None: return None
            k = len(m.shape)
            if v.shape == (): return [(x, idx, True), (v, (), True), (m, tuple(idx[:k]), "test")]
            vs = self.shape(v)
            tail = tuple(idx[k:])
            if v.op in ("expand", "full"):
                b = v.args[0]
                bs = self.shape(b)
                if bs is None or len(bs) > len(tail): return None
                return [(x, idx, True), (b, self.bcidx(b, tail), True), (m, tuple(idx[:k]), "test")]
            if v.op == "index" and v.args[1] is m: return [(x, idx, True), (v.args[0], idx, True), (m, tuple(idx[:k]), "test")]
            return None
        if any(e[0] == "a" for e in spec): return None
        vidx, sure, never, solved = [], True, False, {}
        for j, (e, i) in enumerate(zip(spec, idx)):
            if e[0] in ("c", "i"):
                k = Dim.const(e[1]) if e[0] == "c" else self.val(args[e[1]], (), env)
                if k is None: return None
                if k.is_const() and k.value() < 0: k = xs[j] + k
                d = self.norm(i - k)
                if d.is_const():
                    if d.value() != 0: never = True
                else:
                    # the round of the loop that writes this element
                    un = [s for s in k.syms() if s not in env and s not in self.bounds]
                    if len(un) == 1 and k == Dim.sym(un[0]): solved[un[0]] = i; sure = False
                    elif self.separate(i, k, xs[j]): never = True
                    else: sure = False
            elif e[0] == "s":
                if tuple(e[1:]) == (None, None, None): vidx.append(i); continue
                lo, hi, step = e[1], e[2], e[3]
                if step not in (None, 1): return None
                lo = Dim.const(0) if lo is None else self.bound(lo, env) if not isinstance(lo, tuple) else self.val(args[lo[1]], (), env)
                if lo is None: return None
                if lo.is_const() and lo.value() < 0: lo = xs[j] + lo
                hi = xs[j] if hi is None else self.bound(hi, env) if not isinstance(hi, tuple) else self.val(args[hi[1]], (), env)
                if i.is_const() and lo.is_const() and hi is not None and hi.is_const():
                    if not lo.value() <= i.value() < hi.value(): never = True
                else: sure = False
                vidx.append(i - lo)
            else: return None
        if never: return [(x, idx, None)]
        vidx += list(idx[len(spec):])
        vi = self.bcidx(v, tuple(vidx))
        if vi is None: return None
        if sure: return [(v, vi, None)]
        if solved: return [(x, idx, True), (v, vi, dict(solved))]
        return [(x, idx, True), (v, vi, True)]

    def separate(self, i, k, d):
        return False

    # -------------------------------------------------------------- reads
    def uses(self, n):
        """Does the node depend on the batch at all (inputs, or the number of samples)?"""
        r = self.data.get(n.id)
        if r is None:
            r = any(x.op == "leaf" and x.attr in self.inputs or x.op == "dim" and self.mentions_S(x)
                    or x.op == "arange" and x.shape and isinstance(x.shape[0], Dim) and self.norm(x.shape[0]).syms() & self.S.syms() for x in deps_all(n))
            self.data[n.id] = r
        return r

    def mentions_S(self, n):
        d = n.attr if isinstance(n.attr, Dim) else n.ival
        return d is not None and bool(self.norm(d).syms() & self.S.syms())

    def reads(self, n, idx, env=None):
        """({sample index read | "S" | "number" | "?"}, {fresh sample symbol: its only value with a contribution})"""
        env = env or {}
        idx = tuple(self.norm(i) for i in idx)
        key = (n.id, idx, tuple(sorted(env.items(), key=repr)))
        if key in self.rmemo: return self.rmemo[key]
        if key in self.busy: return self.approx.get(key, (frozenset(), ()))
        if not self.uses(n) and not self.structural_number(n):
            return (frozenset(), ())
        self.busy.add(key)
        try: r = self.reads_(n, idx, env)
        finally: self.busy.discard(key)
        self.rmemo[key] = r
        if self.approx.get(key) != r:
            self.approx[key] = r
            if n.op in ("loopphi",): self.changed = True
        return r

    def query(self, n, idx):
        """Least fixpoint of the reads of one element (loops may feed a value back)."""
        for _ in range(12):
            self.changed = False
            self.rmemo.clear()
            r = self.reads(n, idx)
            if not self.changed: break
        else: return frozenset(r[0]) | {TOP}
        return r[0]

    def structural_number(self, n): return False

    def many(self, items):
        R, C = set(), {}
        for r, c in items:
            R |= r
        return frozenset(R), ()

    def top_(self, n, why):
        self.why.append(f"{n.id} {n.op} {why}")
        return (frozenset({TOP}), ())

    def reads_(self, n, idx, env):
        op = n.op
        if n.const is not NO: return (frozenset(), ())
        if op == "leaf":
            if n.attr in self.inputs: return (frozenset({idx[0]}) if idx else frozenset({TOP}), ())
            return (frozenset(), ())
        if op == "dim" or n.ival is not None and n.shape in ((), None):
            v = self.val(n, (), env)
            return (frozenset({"S"}) if v is None or v.syms() & self.S.syms() else frozenset(self.number(v)), ())
        if op == "shape": return (frozenset(), ())
        if op.startswith("nn:"): return self.layer(n, idx, env)
        if op == "scatter": return self.scattered(n, idx, env)
        if op in ("cmp:==", "cmp:<"):
            vs = []
            for x in n.args:
                i = self.bcidx(x, idx)
                if i is None: return self.top_(n, "rank")
                vs.append((x, i))
            if all(x.dt in ("i", "b") or x.const is not NO for x, _ in vs):
                a, b = (self.val(x, i, env) for x, i in vs)
                if a is not None and b is not None:
                    R = self.many([self.reads(x, i, env) for x, i in vs if not self.integral(x)])[0]
                    if op == "cmp:==":
                        c = self.solve(a, b)
                        if c is not None: return (R, c)
                    d = a - b
                    if d.is_const(): return (R, ())
                    return (R | frozenset(self.number(d)), ())
            return self.many([self.reads(x, i, env) for x, i in vs])
        if op in ("cast", "expand", "transpose", "reshape", "index", "tile", "repeat_interleave", "stackx", "concat", "part", "update", "item", "squeeze", "trunc"):
            if op in ("cast", "trunc"):
                ts = [(n.args[0], self.bcidx(n.args[0], idx), None)]
                if ts[0][1] is None: return self.top_(n, "rank")
            else: ts = self.sources(n, idx, env)
            if ts is None: return self.top_(n, "index")
            out = []
            for x, i, c in ts:
                e = env
                if isinstance(c, dict): e = {**env, **c}
                if x.dt in ("i",) and self.val(x, i, e) is not None and self.integral(x):
                    out.append((frozenset(self.number(self.val(x, i, e))), ()))
                else: out.append(self.reads(x, i, e))
            if op == "index": out += [self.pointer(a, n, k, idx, env) for k, a in enumerate(n.args[1:])]
            if len(out) == 1: return out[0]
            return self.many(out)
        if op in ("sum", "mean", "max", "min", "prod", "any", "all", "var", "std", "norm", "median", "argmax", "argmin", "cumsum", "sort", "logsumexp"):
            return self.reduction(n, idx, env)
        if op in ("mul", "and"):
            a = []
            for x in n.args:
                i = self.bcidx(x, idx)
                if i is None: return self.top_(n, "rank")
                a.append(self.reads(x, i, env))
            cons = {}
            for _, c in a: cons.update(dict(c))
            R = frozenset(self.apply(set().union(*(r for r, _ in a)), cons))
            return (R, tuple(sorted(cons.items(), key=repr)))
        if op == "div":
            ia, ib = self.bcidx(n.args[0], idx), self.bcidx(n.args[1], idx)
            if ia is None or ib is None: return self.top_(n, "rank")
            a, b = self.reads(n.args[0], ia, env), self.reads(n.args[1], ib, env)
            return (frozenset(self.apply(a[0] | b[0], dict(a[1]))), a[1])
        if op == "matmul":
            a, b = n.args
            sa, sb = self.shape(a), self.shape(b)
            if sa is None or sb is None: return self.top_(n, "shape")
            k, s = self.row(sa[-1], n.id)
            ia = (k,) if len(sa) == 1 else self.bcidx2(sa, idx[:-1] if len(sb) > 1 else idx, k, last=True)
            ib = (k,) if len(sb) == 1 else self.bcidx2(sb, idx[:-2] + (idx[-1],) if len(sa) > 1 else idx, k, last=False)
            if ia is None or ib is None: return self.top_(n, "rank")
            return self.many([self.reads(a, ia, env), self.reads(b, ib, env)])
        if op == "cross":
            i2 = tuple(idx[:-1]) + (self.loc(Dim.const(3)),)
            return self.many([self.reads(x, self.bcidx(x, i2), env) for x in n.args])
        if op == "inv":
            i2 = tuple(idx[:-2]) + (self.loc(Dim.const(3)), self.loc(Dim.const(3)))
            return self.reads(n.args[0], i2, env)
        if op == "full": return self.reads(n.args[0], (), env)
        if op in ("loopphi", "phi"):
            out = []
            for x in n.args:
                if x is None: continue
                i = self.bcidx(x, idx)
                if i is None: return self.top_(n, "rank")
                out.append(self.reads(x, i, env))
            out += [self.reads(c, (), env) for c in n.ctrl if isinstance(c, Node) and c.shape == () and not self.integral(c)]
            return self.many(out)
        if op in ("add", "sub", "neg", "pow", "where", "not", "or", "floordiv", "mod", "xor") or op.startswith("u:") or op.startswith("call:") and n.shape is not None:
            out = []
            for x in n.args:
                i = self.bcidx(x, idx)
                if i is None: return self.top_(n, "rank")
                if self.integral(x) and x.dt == "i" and self.val(x, i, env) is not None: out.append((frozenset(self.number(self.val(x, i, env))), ()))
                else: out.append(self.reads(x, i, env))
            return self.many(out)
        if op in ("eye", "arange", "linspace", "uninit"): return (frozenset(), ())
        return self.top_(n, "operation")

    def integral(self, n):
        """Integer tensors that do not contain data of the samples."""
        return n.dt in ("i", "b", None) and not any(x.op == "leaf" and x.attr in self.inputs for x in deps_all(n))

    def number(self, v):
        """Using an index value as a number makes the result depend on the place in the batch."""
        out = set()
        for s in v.syms():
            if s in self.S.syms(): out.add("S")
            elif s in self.bounds and self.bounds[s] == self.S or s == "s": out.add("number of the sample")
        return out

    def solve(self, a, b, own=None):
        """Equality of two sample numbers fixes a fresh sample symbol."""
        d = a - b
        for m, c in d.t:
            if len(m) == 1 and abs(c) == 1 and isinstance(m[0], tuple) and m[0][0] == "smp" and (own is None or m[0] in own):
                rest = d - Dim(((m, c),))
                return ((m[0], -rest if c == 1 else rest),)
        return None

    def apply(self, R, cons):
        if not cons: return R
        out = set()
        for r in R: out.add(self.norm(r.subst(cons)) if isinstance(r, Dim) else r)
        return out

    def pointer(self, a, n, k, idx, env):
        """Data that an index array itself depends on."""
        if self.integral(a) or not self.uses(a): return (frozenset(), ())
        if a.shape == (): return self.reads(a, (), env)
        # position of the element of the index array: same places as the result's leading axes when it is the only one
        adv = [x for x in n.args[1:] if x.shape not in ((), None)]
        sp = [e[0] for e in n.attr]
        if sp and sp[0] == "a" and all(e in ("a", "c", "i") for e in sp[:sum(1 for e in sp if e == "a")]):
            r = max(len(x.shape) for x in adv)
            i = self.bcidx(a, tuple(idx[:r]))
            if i is not None: return self.reads(a, i, env)
        return self.top_(n, "index array")

    def bcidx2(self, sh, idx, k, last):
        """Index of a matmul operand: batch axes broadcast, row/column kept, contracted axis k."""
        m = len(sh)
        if len(idx) < m - 1: return None
        lead = idx[:-1]
        own = idx[-1]
        q = sh[:-2]
        t = lead[len(lead) - len(q):] if len(q) else ()
        b = tuple(Dim.const(0) if d == D1 else i for d, i in zip(q, t))
        return b + ((own, k) if last else (k, own))

    def reduction(self, n, idx, env):
        axes, keep = n.attr[0], n.attr[1]
        x = n.args[0]
        s = self.shape(x)
        if s is None: return self.top_(n, "shape")
        idx = list(idx)
        src, fresh, extra = [], [], set()
        for i, d in enumerate(s):
            if axes is None or i in axes or i - len(s) in axes:
                k, f = self.row(d, (n.id, i))
                src.append(k)
                if f is not None:
                    fresh += list(f.syms())
                    if n.op in ("mean", "var", "std"): extra.add("S")
                if keep and idx: idx.pop(0)
            else:
                if not idx: return self.top_(n, "rank")
                src.append(idx.pop(0))
        R, C = self.reads(x, tuple(src), env)
        cons = {k: v for k, v in C if k in fresh} if n.op in ("sum", "any") else {}
        # counting rows: a sum over all samples of something that reads nothing
        R = set(self.apply(R, cons)) | extra
        if n.op == "sum":
            for f in fresh:
                if f not in cons: R.add("S")
        return (frozenset(R), ())

    def layer(self, n, idx, env):
        x = n.args[0]
        nm = n.op[3:]
        s = self.shape(x)
        if s is None: return self.top_(n, "shape")
        if nm in ("ShiftedSoftplus", "ReLU", "Tanh", "Sigmoid", "SiLU", "Softplus", "GELU", "Identity", "LeakyReLU", "ELU"): return self.reads(x, self.bcidx(x, idx), env)
        if nm == "Embedding":
            return self.reads(x, tuple(idx[:-1]), env)
        if nm in ("Linear", "LayerNorm"):
            return self.reads(x, tuple(idx[:-1]) + (self.loc(s[-1]),), env)
        if nm in ("BatchNorm1d", "Dropout"):
            if n.attr is False: return self.reads(x, idx, env)
            if n.attr is True and nm == "BatchNorm1d":
                k, f = self.row(s[0], n.id)
                return self.many([self.reads(x, (k,) + tuple(idx[1:]), env)])
            return self.top_(n, "mode not known")
        return self.top_(n, "layer")

    def scattered(self, n, idx, env):
        x, ix = n.args[0], n.args[1]
        dim, red = n.attr
        s, si, so = self.shape(x), self.shape(ix), self.shape(n)
        if dim not in (0, None) or s is None or si is None or so is None or len(si) != 1: return self.top_(n, "scatter")
        k, f = self.row(s[0], n.id)
        v = self.val(ix, (k,), env)
        R, _ = self.reads(x, (k,) + tuple(idx[1:]), env)
        if f is None: return (R, ())
        if v is None: return (R | {TOP}, ()) if R else (R, ())
        V = so[0].div(self.S)
        if V is None: return self.top_(n, "extent")
        q1, _ = self.divmod(v, V)
        q2, _ = self.divmod(idx[0], V)
        if q1 is None or q2 is None: return self.top_(n, f"row {v} / {V}")
        c = self.solve(q1, q2, f.syms())
        return (frozenset(self.apply(R, dict(c) if c else {})), ())


_da = {}


def deps_all(node):
    r = _da.get(node.id)
    if r is None or r[0] is not node:
        seen, todo = {}, [node]
        while todo:
            n = todo.pop()
            if n is None or n.id in seen: continue
            seen[n.id] = n
            todo += [a for a in n.args if isinstance(a, Node)]
        r = _da[node.id] = (node, list(seen.values()))
    return r[1]
