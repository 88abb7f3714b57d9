"""Library model: builtins, containers, strings, files. Array semantics live in nplib, torch/other in extlib."""
from __future__ import annotations
import re, string
from .core import *
from .core import _SYM_MIN
from .nplib import NpMixin
from .extlib import ExtMixin

CMP = {"Eq", "NotEq", "Lt", "LtE", "Gt", "GtE", "Is", "IsNot", "In", "NotIn"}
STR_PURE = {"strip", "lstrip", "rstrip", "lower", "upper", "replace", "title", "capitalize", "removeprefix", "removesuffix",
            "ljust", "rjust", "center", "zfill", "format", "expandtabs", "swapcase", "encode", "decode", "casefold"}
STR_BOOL = {"startswith", "endswith", "isdigit", "isalpha", "isspace", "isalnum", "isupper", "islower", "isnumeric", "isdecimal", "isidentifier"}


ORDER_FREE = {"sorted", "set", "frozenset", "min", "max", "any", "all", "len", "comp:set", "bool"}


class Lib(NpMixin, ExtMixin):
    def __init__(self, I):
        self.xml_oids = {}
        self.I = I
        self.g = I.g
        self.keysets = {}
        self.init_np()
        self.init_ext()

    # ---------------------------------------------------------------- helpers
    def const(self, v): return self.g.const(v)

    def canon_ext(self, name):
        name = {"numpy.core": "numpy"}.get(name, name)
        if name == "numpy.pi": return self.const(3.141592653589793)
        if name in ("numpy.newaxis",): return self.const(None)
        return ExtV(name)

    def is_none(self, v): return isinstance(v, Node) and v.dt == "N"
    def is_str(self, v): return isinstance(v, Node) and v.dt == "s"
    def is_num(self, v): return isinstance(v, Node) and v.dt in ("i", "f", "b", "n", "c")

    def ckey(self, v):
        if isinstance(v, Node) and v.const is not NO:
            try: hash(v.const)
            except TypeError: return NO
            return v.const
        if isinstance(v, TupleV):
            ks = [self.ckey(x) for x in v.items]
            return NO if NO in ks else tuple(ks)
        if isinstance(v, ExtV): return ("ext", v.name)
        return NO

    def fresh_len(self, key, minimum=0):
        return new_sym(("n", self.I.ctx, self.I.cur, key), minimum)

    def int_node(self, d): return self.g.dim(d)

    def length(self, v, st):
        """Dim or None"""
        o = self.I.obj(v, st)
        if isinstance(v, TupleV): return Dim.const(len(v.items))
        if isinstance(o, ListO): return st.norm(o.length)
        if isinstance(o, DictO): return Dim.const(len(o.items)) if o.complete else o.length
        if isinstance(o, ArrO):
            s = self.I.content(st, v).shape
            return s[0] if s else None
        if isinstance(v, Node) and v.const is not NO and isinstance(v.const, str): return Dim.const(len(v.const))
        return None

    # ---------------------------------------------------------------- with / decorators / generators
    def decorate(self, dv, v, st):
        if isinstance(dv, ExtV) and dv.name.split(".")[-1] in ("no_grad", "inference_mode", "wraps", "lru_cache", "cache", "contextmanager", "dataclass", "final", "override"):
            if dv.name.split(".")[-1] in ("lru_cache", "cache"): self.I.event("memo", st, fn=v)
        return None

    def enter(self, v, st):
        o = self.I.obj(v, st)
        if isinstance(o, InstO):
            if isinstance(o.cls, ClassV):
                m, _ = o.cls.lookup("__enter__")
                if m is not None: return self.I.call_func(m, [v], {}, st), ("inst", v)
            n = getattr(o.cls, "name", "")
            if n == "contextlib.suppress":
                return self.const(None), ("suppress", list(o.fields["args"].items))
            if n == "file": return v, ("file", v)
            return v, ("ctx", v)
        if isinstance(v, ExtV): return v, None
        return v, None

    def exit(self, e, st):
        if e[0] == "file": self.I.event("close", st, file=e[1])
        elif e[0] == "inst":
            o = self.I.obj(e[1], st)
            m, _ = o.cls.lookup("__exit__")
            if m is not None:
                n = self.const(None)
                try: self.I.call_func(m, [e[1], n, n, n], {}, st)
                except Exception: raise

    def do_yield(self, fr, v, st):
        # generator results are summarised by the list of yielded values
        fr.yields.append((v, st.pc, list(self.I.loopstack)))

    def make_gen(self, fr, st):
        e = None
        loops = set()
        ys = fr.yields or []
        for v, _, lp in ys:
            e = self.I.join_val(e, v); loops.add(tuple(lp))
        if not ys: return self.I.new_list(st, [], kind="iter", key="gen")
        end = set((id(c), p) for c, p in pc_list(st.pc))
        if all(list(lp) == list(self.I.loopstack) and all((id(c), p) in end for c, p in pc_list(pc)) for _, pc, lp in ys):
            return self.I.new_list(st, [v for v, _, _ in ys], kind="iter", key="gen")     # every yield happens, once
        src = None
        ln = self.fresh_len("gen")
        if len(ys) == 1 and len(ys[0][2]) == 1 + len(self.I.loopstack) and ys[0][2]:
            src = ys[0][2][-1]
            if src.meta.get("trip") is not None: ln = src.meta["trip"]
        return self.I.new_list(st, None, e, ln, kind="iter", key="gen", src=src)

    # ---------------------------------------------------------------- iteration
    def idx_leaf(self, node, trip):
        key = (self.I.ctx, node.lineno, node.col_offset)
        n = self.g.leaf(("loopidx",) + key, (), "i", {"trip": trip})
        if n.ival is None:
            n.ival = new_sym(("i", key), 0)
            n.meta["sym"] = next(iter(n.ival.syms()))
        n.meta["trip"] = trip
        return n

    def set_iterated(self, o, st, node):
        """the order of a set is observed (unless the consumer does not depend on it)"""
        I = self.I
        who = I.consumers[-1] if I.consumers else ""
        if who in ORDER_FREE: return
        els = o.items if o.items is not None else [o.elem] if o.elem is not None else []
        if len(els) < 2 and o.items is not None: return
        kinds = set()
        for e in els:
            for x in (e.vals if isinstance(e, Union) else [e]):
                kinds.add(x.dt if isinstance(x, Node) else type(x).__name__)
        I.event("set-iter", st, who=who, kinds=tuple(sorted(str(k) for k in kinds)), node=node)

    def iterate(self, v, st, node):
        """("exact", [values]) or ("gen", elem|callable(st), trip, idx)."""
        I = self.I
        if isinstance(v, TupleV): return ("exact", list(v.items))
        if isinstance(v, Union):
            specs = []
            for x in sorted(v.vals, key=repr):
                try: specs.append(self.iterate(x, st, node))
                except DeadFlowT: pass
            if not specs: I.must_raise(st, "TypeError", "object is not iterable")
            if len(specs) == 1: return specs[0]
            el = None
            def conv(s, x):
                if s[0] == "exact":
                    r = None
                    for y in s[1]: r = I.join_val(r, y)
                    return r
                return s[1](x) if callable(s[1]) else s[1]
            return ("gen", lambda x: self._joined([conv(s, x) for s in specs]), None, self.idx_leaf(node, None))
        if isinstance(v, Node):
            if v.const is not NO and isinstance(v.const, str): return ("exact", [self.const(c) for c in v.const])
            if v.dt == "s": return ("gen", self.g.mk("char", [v], None, (), "s"), None, self.idx_leaf(node, None))
            if v.dt in ("N", "i", "f", "b") and v.shape == (): I.must_raise(st, "TypeError", "object is not iterable")
            return ("gen", self.g.mk("iterelem", [v, self.idx_leaf(node, None)]), None, self.idx_leaf(node, None))
        o = I.obj(v, st)
        if isinstance(o, ListO):
            if o.kind == "set": self.set_iterated(o, st, node)
            if o.items is not None: return ("exact", list(o.items))
            ln = st.norm(o.length) if o.length is not None else None
            if o.kind == "range":
                idx = self.idx_leaf(node, ln)
                lo, step = o.src
                if lo == D0 and step == D1: return ("gen", idx, ln, idx)
                n = self.g.mk("add", [self.g.dim(lo), self.g.mk("mul", [idx, self.g.dim(step)], None, (), "i")], None, (), "i")
                if n.ival is None: n.ival = lo + idx.ival * step
                return ("gen", n, ln, idx)
            if o.kind == "zip": return self.iter_zip(o, st, node)
            if o.kind == "enum":
                sub = self.iterate(o.elem, st, node)
                start = o.src
                if sub[0] == "exact":
                    s0 = start.value() if start is not None and start.is_const() else None
                    if s0 is not None: return ("exact", [TupleV([self.const(i + s0), x]) for i, x in enumerate(sub[1])])
                    return ("exact", [TupleV([self.I.top("enum"), x]) for x in sub[1]])
                _, el, trip, idx = sub
                ix = idx if start == D0 else self.addi(idx, self.g.dim(start)) if start is not None else I.top("enumerate start", shape=(), dt="i")
                return ("gen", lambda x: TupleV([ix, el(x) if callable(el) else el]), trip, idx)
            idx = o.src if isinstance(o.src, Node) and o.src not in I.loopstack else None
            ridx = idx or self.idx_leaf(node, ln)
            if o.elem is None:
                if ln is not None and dim_sign(ln, st.mins) in ("0", "<="): return ("exact", [])
                return ("gen", I.top("empty elem"), ln, ridx)
            el = o.elem
            if idx is None: el = self.reindex(el, o, ridx, st)
            return ("gen", el, ln, ridx)
        if isinstance(o, DictO):
            if o.complete:
                return ("exact", [self.keyval(k) for k in o.items])
            ks = o.key
            for k in o.items: ks = I.join_val(ks, self.keyval(k))
            idx = self.idx_leaf(node, o.length)
            return ("gen", self.vary(ks, idx), o.length, idx)
        if isinstance(o, ArrO):
            c = I.content(st, v)
            if c.shape == (): I.must_raise(st, "TypeError", "iteration over a 0-d array")
            if c.shape is not None and c.shape[0].is_const() and c.shape[0].value() <= 12:
                return ("exact", [self.getitem(v, self.const(i), st) for i in range(c.shape[0].value())])
            trip = c.shape[0] if c.shape else None
            idx = None
            for n in (c,):
                if n.op == "stack" and len(n.args) > 1 and n.args[1] not in I.loopstack: idx = n.args[1]
            idx = idx or self.idx_leaf(node, trip)
            return ("gen", lambda x: self.getitem(v, idx, x), trip, idx)
        if isinstance(o, InstO):
            if isinstance(o.cls, ClassV):
                m, _ = o.cls.lookup("__iter__")
                if m is not None: return self.iterate(I.call_func(m, [v], {}, st), st, node)
                g, _ = o.cls.lookup("__getitem__")
                if g is not None:
                    idx = self.idx_leaf(node, None)
                    return ("gen", lambda x: I.call_func(g, [v, idx], {}, x), None, idx)
            return self.iter_inst(v, o, st, node)
        if isinstance(v, (ExtV, FuncV, BoundV)): I.must_raise(st, "TypeError", "object is not iterable")
        return ("gen", I.top("iterate"), None, self.idx_leaf(node, None))

    def _joined(self, vs):
        r = None
        for v in vs: r = self.I.join_val(r, v)
        return r

    def keyval(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == "ext": return ExtV(k[1])
        if isinstance(k, tuple): return TupleV([self.keyval(x) for x in k])
        return self.const(k)

    def vary(self, v, idx):
        """value that is 'some element' -> element tied to the loop index"""
        if isinstance(v, Node) and v.op in ("anyelem",): return self.g.mk("iterelem", list(v.args) + [idx], v.attr, v.shape, v.dt)
        return v

    def reindex(self, el, o, ridx, st):
        if isinstance(o.src, Node) and isinstance(el, Node): return self.subst(el, {o.src: ridx})
        if isinstance(o.src, Node) and isinstance(el, TupleV): return TupleV([self.reindex(x, o, ridx, st) for x in el.items], el.names)
        if isinstance(el, Node) and el.op == "member": return self.as_member(self.reindex(el.args[0], o, ridx, st), el.attr)
        if isinstance(el, Node) and el.op == "anyelem": return self.g.mk("iterelem", list(el.args) + [ridx], el.attr, el.shape, el.dt, meta=dict(el.meta or {}))
        return el

    def iter_zip(self, o, st, node):
        subs = [self.iterate(x, st, node) for x in o.elem.items]
        strict = o.src
        if all(s[0] == "exact" for s in subs):
            ns = {len(s[1]) for s in subs}
            if strict and len(ns) > 1: self.I.must_raise(st, "ValueError", "zip() arguments of different length (strict)")
            return ("exact", [TupleV(x) for x in zip(*[s[1] for s in subs])])
        trips = []
        for s in subs:
            trips.append(Dim.const(len(s[1])) if s[0] == "exact" else s[2])
        known = [st.norm(t) for t in trips if t is not None]
        trip = None
        if len(known) == len(trips):
            if all(k == known[0] for k in known): trip = known[0]
            else:
                if strict:
                    bad = any(dim_sign(k - known[0], st.mins) in ("+", "-") for k in known)
                    if bad: self.I.must_raise(st, "ValueError", "zip() arguments of different length (strict)")
                    self.I.may_raise(st, "ValueError", "zip() arguments of different length (strict)", {s for k in known for s in k.syms()})
                    for k in known[1:]:
                        self.I.equate(k - known[0], st)
                    trip = st.norm(known[0])
                else:
                    # the shortest, when comparable
                    m = known[0]
                    for k in known[1:]:
                        sg = dim_sign(k - m, st.mins)
                        if sg in ("+", ">=", "0"): continue
                        if sg in ("-", "<="): m = k
                        else: m = None; break
                    trip = m
                    self.I.event("zipcut", st, lens=tuple(known))
        elif strict: self.I.may_raise(st, "ValueError", "zip() arguments of different length (strict)", LOST)
        # constant trip -> unroll
        if trip is not None and trip.is_const() and trip.value() <= 12 and all(s[0] == "exact" for s in subs):
            pass
        idx = None
        for s in subs:
            if s[0] == "gen" and s[3].attr[0] == "loopidx" and s[3] is not None:
                idx = s[3] if idx is None or (idx is not s[3] and s[3].meta.get("own")) else idx
        # re-evaluate all components on one index
        shared = None
        for x, s in zip(o.elem.items, subs):
            ob = self.I.obj(x, st)
            if s[0] == "gen" and isinstance(ob, ListO) and isinstance(ob.src, Node) and s[3] is ob.src: shared = ob.src if shared is None else shared
            if s[0] == "gen" and isinstance(ob, ArrO):
                c = self.I.content(st, x)
                if c.op == "stack" and len(c.args) > 1 and c.args[1] is s[3]: shared = c.args[1] if shared is None else shared
        idx = shared or self.idx_leaf(node, trip)
        def elem(x):
            out = []
            for val, s in zip(o.elem.items, subs):
                ob = self.I.obj(val, x)
                if s[0] == "exact":
                    r = None
                    for y in s[1]: r = self.I.join_val(r, y)
                    out.append(r)
                elif isinstance(ob, ArrO): out.append(self.getitem(val, idx, x))
                elif isinstance(ob, ListO) and ob.kind == "list" or isinstance(ob, ListO) and ob.kind == "iter":
                    el = ob.elem
                    if isinstance(ob.src, Node) and ob.src is not idx: el = self.reindex(el, ob, idx, x)
                    elif not isinstance(ob.src, Node): el = self.reindex(el, ob, idx, x)
                    out.append(el)
                elif s[3] is idx: out.append(s[1](x) if callable(s[1]) else s[1])
                else:
                    e = s[1](x) if callable(s[1]) else s[1]
                    out.append(self.subst(e, {s[3]: idx}) if isinstance(e, Node) else e)
            return TupleV(out)
        return ("gen", elem, trip, idx)

    def unpack(self, v, n, st):
        I = self.I
        if isinstance(v, TupleV):
            if len(v.items) != n: I.must_raise(st, "ValueError", "wrong number of values to unpack")
            return list(v.items)
        if isinstance(v, Union):
            rs = None; dead = True
            for x in sorted(v.vals, key=repr):
                try: r = self.unpack(x, n, st)
                except DeadFlowT: continue
                rs = r if rs is None else [I.join_val(a, b) for a, b in zip(rs, r)]
            if rs is None: raise DeadFlowT()
            return rs
        o = I.obj(v, st)
        if isinstance(o, ListO):
            if o.items is not None:
                if len(o.items) != n: I.must_raise(st, "ValueError", "wrong number of values to unpack")
                return list(o.items)
            self.need_len(o.length, n, st)
            if o.kind in ("zip", "enum", "range"): return [I.top("unpack") for _ in range(n)]
            return [self.pick(o, self.const(i)) for i in range(n)]
        if isinstance(o, ArrO):
            c = I.content(st, v)
            if c.shape is not None:
                if c.shape == (): I.must_raise(st, "TypeError", "cannot unpack")
                self.need_len(c.shape[0], n, st)
            return [self.getitem(v, self.const(i), st) for i in range(n)]
        if isinstance(v, Node):
            if v.dt in ("N", "i", "f", "b"): I.must_raise(st, "TypeError", "cannot unpack non-iterable")
            return [self.g.mk("item", [v], i) for i in range(n)]
        if isinstance(o, InstO):
            sp = self.iterate(v, st, _FakeNode(*I.cur[1:]))
            if sp[0] == "exact" and len(sp[1]) == n: return sp[1]
            b = self.I.node_of(v, st)
            return [self.g.mk("item", [b], i) for i in range(n)]
        if isinstance(o, DictO) and o.complete and len(o.items) == n: return [self.keyval(k) for k in o.items]
        return [I.top("unpack") for _ in range(n)]

    def unpack_star(self, v, n, i, st):
        if isinstance(v, TupleV): items = list(v.items)
        else:
            o = self.I.obj(v, st)
            if isinstance(o, ListO) and o.items is not None: items = list(o.items)
            else:
                if isinstance(o, ListO): self.need_len_min(o.length, n - 1, st)
                el = self.pick(o, None) if isinstance(o, ListO) else self.I.top("star")
                out = [el] * n
                out[i] = self.I.new_list(st, None, el, self.fresh_len("star"))
                return out
        k = len(items) - (n - 1)
        if k < 0: self.I.must_raise(st, "ValueError", "not enough values to unpack")
        mid = self.I.new_list(st, items[i:i + k], key="star")
        return items[:i] + [mid] + items[i + k:]

    def need_len(self, ln, n, st):
        I = self.I
        if ln is None: I.may_raise(st, "ValueError", "wrong number of values to unpack", LOST); return
        d = st.norm(ln) - Dim.const(n)
        s = dim_sign(d, st.mins)
        if s in ("+", "-"): I.must_raise(st, "ValueError", "wrong number of values to unpack")
        if s != "0":
            I.may_raise(st, "ValueError", "wrong number of values to unpack", d.syms())
            I.equate(d, st)

    def need_len_min(self, ln, n, st):
        if ln is None or dim_sign(st.norm(ln) - Dim.const(n), st.mins) not in ("+", "0", ">="):
            self.I.may_raise(st, "ValueError", "not enough values to unpack", LOST if ln is None else st.norm(ln).syms())

    def pick(self, o, ix):
        """element of a list summary"""
        e = o.elem
        if e is None: return self.I.top("element of empty list")
        if isinstance(e, Node) and isinstance(o.src, Node) and isinstance(ix, Node): return self.subst(e, {o.src: ix})
        if isinstance(e, Node) and e.op == "anyelem" and ix is not None:
            return self.g.mk("iterelem", list(e.args) + [ix], e.attr, e.shape, e.dt, meta=dict(e.meta or {}))
        return e

    # ---------------------------------------------------------------- subscripts
    def getitem(self, ob, ix, st):
        I = self.I
        if isinstance(ix, Union) and not isinstance(ob, Union):
            return I.over(ix, lambda x, y: self.getitem(ob, x, y), st)
        if isinstance(ob, Union): return I.getitem(ob, ix, st)
        if isinstance(ob, TupleV): return self.seq_get(list(ob.items), ix, st, "tuple", ob.names)
        if isinstance(ob, ExtV) and self.ambient(ob, st) is not None: return self.ambient(ob, st)
        o = I.obj(ob, st)
        if isinstance(o, ArrO): return self.arr_getitem(ob, o, ix, st)
        if isinstance(o, ListO):
            if o.kind in ("set", "iter", "zip", "enum"): I.must_raise(st, "TypeError", f"'{o.kind}' object is not subscriptable")
            if o.items is not None: return self.seq_get(list(o.items), ix, st, "list")
            if isinstance(ix, SliceV): return self.sum_slice(o, ix, st)
            if o.kind == "range":
                return self.addi(self.g.dim(o.src[0]), self.g.mk("mul", [ix, self.g.dim(o.src[1])], None, (), "i"))
            n = I.node_of(ix, st)
            if n.dt in ("f", "s", "N"): I.must_raise(st, "TypeError", "list indices must be integers")
            self.check_index(n, o.length, st, "list index out of range")
            return self.pick(o, n)
        if isinstance(o, DictO):
            k = self.ckey(ix)
            if k is not NO and k in o.items: return o.items[k]
            if o.complete and k is not NO:
                I.must_raise(st, "KeyError", f"key {k!r} not in dict")
            n = I.node_of(ix, st)
            guard = self.g.mk("in", [n, I.node_of(ob, st)], None, (), "b")
            r = o.val
            for v in o.items.values(): r = I.join_val(r, v)
            if st.facts.get(guard.id) is not True and not self.member_fact(n, ob, o, st):
                I.may_raise(st, "KeyError", "key may be missing")
            if r is None: raise DeadFlowT()
            if isinstance(r, Node) and len(o.items) > 1 and all(isinstance(v, Node) and v.const is not NO for v in o.items.values()):
                dts = {v.dt for v in o.items.values()}
                return self.g.mk("lookup", [n, self.dict_node(ob, o)], None, (), dts.pop() if len(dts) == 1 else None)
            return r
        if isinstance(o, InstO):
            if isinstance(o.cls, ClassV):
                m, _ = o.cls.lookup("__getitem__")
                if m is not None: return I.call_func(m, [ob, ix], {}, st)
            return self.inst_getitem(ob, o, ix, st)
        if isinstance(ob, Node):
            if ob.dt == "s":
                if isinstance(ix, SliceV):
                    ks = [x.const if isinstance(x, Node) else NO for x in (ix.lo, ix.hi, ix.step)]
                    if ob.const is not NO and NO not in ks: return self.const(ob.const[slice(*ks)])
                    return self.strop("substr", [ob, I.node_of(ix, st)])
                n = I.node_of(ix, st)
                if ob.const is not NO and n.const is not NO:
                    try: return self.const(ob.const[n.const])
                    except IndexError: I.must_raise(st, "IndexError", "string index out of range")
                if not self.str_nonempty(ob, st): I.may_raise(st, "IndexError", "string index out of range")
                return self.strop("char", [ob, n])
            if ob.dt == "N": I.must_raise(st, "TypeError", "'NoneType' object is not subscriptable")
            if ob.dt in ("i", "f", "b") and ob.shape == (): I.must_raise(st, "TypeError", "scalar is not subscriptable")
            return self.node_getitem(ob, ix, st)
        if isinstance(ob, (ExtV, ClassV)): return ob     # generic alias
        if isinstance(ob, (FuncV, BoundV)): I.must_raise(st, "TypeError", "function is not subscriptable")
        return I.top("getitem")

    def dict_node(self, ref, o):
        return self.g.mk("dictconst", (), tuple(sorted((repr(k), repr(v.const)) for k, v in o.items.items())))

    def member_fact(self, n, ref, o, st):
        if o.complete and o.items:
            # element of the key set?
            if n.op == "lookup":
                pass
            dn = self.dict_node(ref, o) if all(isinstance(v, Node) and v.const is not NO for v in o.items.values()) else None
            self.keys_node(o)
            mine = set(self.keyset(o))
            for kn in self.keysets.values():
                if st.facts.get(self.g.mk("inkeys", [n, kn], None, (), "b").id) is True and set(kn.attr) <= mine: return True
            m = n.meta or {}
            if m.get("member") is not None and set(m["member"]) <= mine: return True
            if n.op == "lookup" and n.args[1].op == "dictconst":
                vals = {v for _, v in n.args[1].attr}
                if vals <= {repr(k) for k in o.items}: return True
        return False

    def keyset(self, o): return tuple(sorted(map(repr, o.items)))
    def keys_node(self, o):
        n = self.g.mk("keys", (), self.keyset(o))
        self.keysets[n.id] = n
        return n

    def known_member(self, n, st):
        """keyset of a complete dictionary in which the value is known to occur as a key"""
        if n.const is not NO or n.dt not in ("s", "i", None): return None
        m = n.meta or {}
        if m.get("member") is not None: return m["member"]
        for kn in self.keysets.values():
            if st.facts.get(self.g.mk("inkeys", [n, kn], None, (), "b").id) is True: return kn.attr
        return None

    def as_member(self, n, keys):
        if (n.meta or {}).get("member") == keys: return n
        return self.g.mk("member", [n], keys, n.shape, n.dt, meta=dict(n.meta or {}, member=keys))

    def seq_get(self, items, ix, st, kind, names=None):
        I = self.I
        if isinstance(ix, SliceV):
            lo, hi, step = (self.ckey(x) for x in (ix.lo, ix.hi, ix.step))
            if NO in (lo, hi, step):
                e = None
                for x in items: e = I.join_val(e, x)
                return I.new_list(st, None, e, self.fresh_len("slice"), key="slice")
            r = items[lo:hi:step]
            return TupleV(r) if kind == "tuple" else I.new_list(st, r, key="slice")
        n = I.node_of(ix, st)
        if n.const is not NO:
            if not isinstance(n.const, int): I.must_raise(st, "TypeError", f"{kind} indices must be integers")
            try: return items[n.const]
            except IndexError: I.must_raise(st, "IndexError", f"{kind} index out of range")
        if n.dt in ("f", "s", "N"): I.must_raise(st, "TypeError", f"{kind} indices must be integers")
        self.check_index(n, Dim.const(len(items)), st, f"{kind} index out of range")
        r = None
        for x in items: r = I.join_val(r, x)
        if r is None: raise DeadFlowT()
        return r

    def check_index(self, n, ln, st, why):
        """May an integer index n be out of range for length ln?"""
        I = self.I
        if n.op == "leaf" and n.attr and n.attr[0] == "loopidx":
            t = n.meta.get("trip")
            if t is not None and ln is not None:
                s = dim_sign(st.norm(ln) - st.norm(t), st.mins)
                if s in ("0", "+", ">="): return
        if ln is None or n.ival is None:
            if ln is not None and (n.meta or {}).get("bound") is not None and dim_sign(st.norm(ln) - st.norm(n.meta["bound"]), st.mins) in ("0", "+", ">="): return
            I.may_raise(st, "IndexError", why, LOST if ln is None else st.norm(ln).syms()); return
        v, l = st.norm(n.ival), st.norm(ln)
        if v.is_const() and v.value() < 0:
            d = l + v
        else: d = l - v - D1
        s = dim_sign(d, st.mins)
        if s in ("+", "0", ">="): return
        if s == "-": I.must_raise(st, "IndexError", why)
        I.may_raise(st, "IndexError", why, d.syms())
        I.atleast(d, st)

    def sum_slice(self, o, ix, st):
        I = self.I
        lo, hi, step = (self.ckey(x) for x in (ix.lo, ix.hi, ix.step))
        ln = None
        base = st.norm(o.length) if o.length is not None else None
        src = None
        if step in (None, 1) and lo in (None, 0) and isinstance(hi, int) and hi >= 0:
            if base is not None and dim_sign(base - Dim.const(hi), st.mins) in ("+", "0", ">="): ln = Dim.const(hi)
            else:
                ln = self.fresh_len("slice"); src = ("upto", base, hi)
        elif step in (None, 1) and hi is None and isinstance(lo, int) and lo >= 0 and base is not None and dim_sign(base - Dim.const(lo), st.mins) in ("+", "0", ">="):
            ln = base - Dim.const(lo)
        elif lo is None and hi is None and step in (None, 1): ln, src = base, o.src
        else: ln = self.fresh_len("slice")
        r = I.new_list(st, None, o.elem, ln, kind="list", key="slice", src=src if isinstance(src, Node) else None)
        if isinstance(src, tuple): I.slice_caps[next(iter(ln.syms()))] = src
        return r

    def setitem(self, ob, ix, v, st, aug=None, quiet=False):
        I = self.I
        if isinstance(ob, TupleV): I.must_raise(st, "TypeError", "tuple does not support item assignment")
        o = I.obj(ob, st)
        if isinstance(o, ArrO): return self.arr_setitem(ob, o, ix, v, st, aug)
        if isinstance(o, ListO):
            if not quiet: I.mutated(st, ob, "item assignment")
            if o.items is not None:
                n = I.node_of(ix, st)
                if n.const is not NO and isinstance(n.const, int):
                    it = list(o.items)
                    try: it[n.const] = v
                    except IndexError: I.must_raise(st, "IndexError", "assignment index out of range")
                    st.heap[ob.oid] = ListO(it, kind=o.kind); return
                e = v
                for x in o.items: e = I.join_val(e, x)
                st.heap[ob.oid] = ListO(None, e, o.length, o.kind); return
            st.heap[ob.oid] = ListO(None, I.join_val(o.elem, v), o.length if not isinstance(ix, SliceV) else None, o.kind); return
        if isinstance(o, DictO):
            if not quiet: I.mutated(st, ob, "item assignment", key=I.node_of(ix, st), value=I.node_of(v, st))
            k = self.ckey(ix)
            if k is not NO and o.complete:
                it = dict(o.items); it[k] = v
                st.heap[ob.oid] = DictO(it)
            elif k is not NO:
                it = dict(o.items); it[k] = v
                st.heap[ob.oid] = DictO(it, o.key, o.val, False, None)
            else:
                key, val = I.join_val(o.key, ix), I.join_val(o.val, v)
                items = {kk: I.join_val(vv, v) for kk, vv in o.items.items()}
                st.heap[ob.oid] = DictO(items, key, val, False, None)
            return
        if isinstance(o, InstO):
            if isinstance(o.cls, ClassV):
                m, _ = o.cls.lookup("__setitem__")
                if m is not None: I.call_func(m, [ob, ix, v], {}, st); return
            I.mutated(st, ob, "item assignment"); return
        if isinstance(ob, Node) and ob.dt in ("N", "s", "i", "f", "b"): I.must_raise(st, "TypeError", "object does not support item assignment")
        I.note("setitem on unknown")

    def delitem(self, ob, ix, st):
        o = self.I.obj(ob, st)
        if isinstance(ob, Ref): self.I.mutated(st, ob, "del")
        if isinstance(o, DictO):
            k = self.ckey(ix)
            if k is not NO and o.complete:
                if k not in o.items: self.I.must_raise(st, "KeyError", "del missing key")
                it = dict(o.items); del it[k]; st.heap[ob.oid] = DictO(it); return
            self.I.may_raise(st, "KeyError", "del")
            st.heap[ob.oid] = DictO(o.items, o.key, o.val, False)
        elif isinstance(o, ListO):
            k = self.ckey(ix)
            if o.items is not None and isinstance(k, int) and -len(o.items) <= k < len(o.items):
                it = list(o.items); del it[k]; st.heap[ob.oid] = ListO(it, kind=o.kind); return
            self.I.may_raise(st, "IndexError", "del")
            e = o.elem
            for x in o.items or (): e = self.I.join_val(e, x)
            st.heap[ob.oid] = ListO(None, e, o.length - D1 if o.length is not None and not isinstance(ix, SliceV) else None, o.kind)

    def backwards(self, e, idx, n, st):
        """the element e of a list of n elements, indexed by idx, when the list is read from the other end"""
        if isinstance(e, Ref) and isinstance(st.heap.get(e.oid), ArrO):
            b = self.backwards(self.I.content(st, e), idx, n, st)
            return self.I.alloc(st, ArrO(b, None, st.heap[e.oid].lib), ("backwards", e.oid))
        if not isinstance(e, Node): return None
        back = self.g.mk("sub", [self.g.dim(n - D1), idx], None, (), "i")
        if back.ival is None and idx.ival is not None: back.ival = n - D1 - idx.ival
        return self.subst(e, {idx: back})

    def list_append(self, ref, v, st):
        o = st.heap[ref.oid]
        if isinstance(v, Node):
            k = self.known_member(v, st)
            if k is not None: v = self.as_member(v, k)
        self.I.appended(ref.oid, v, st)
        if o.items is not None and len(o.items) < 200: st.heap[ref.oid] = ListO(list(o.items) + [v], kind=o.kind)
        else: st.heap[ref.oid] = ListO(None, self.I.join_val(o.elem, v), o.length + D1 if o.length is not None else None, o.kind)

    # ---------------------------------------------------------------- strings
    def strop(self, op, args, attr=None, dt="s"):
        return self.g.mk("str:" + op, args, attr, (), dt)

    def str_nonempty(self, n, st):
        if n.const is not NO: return len(n.const) > 0
        for f in (n, ):
            if st.facts.get(f.id) is True: return True
        # len(s) facts, strip() facts
        d = self.strlen(n)
        if dim_sign(st.norm(d), st.mins) == "+": return True
        s = self.strop("strip", [n])
        if st.facts.get(s.id) is True or dim_sign(st.norm(self.strlen(s)), st.mins) == "+": return True
        if n.op == "str:char": return True
        for m in ("lower", "upper"):
            if n.op == "str:" + m: return self.str_nonempty(n.args[0], st)
        return False

    def strlen(self, n):
        if n.const is not NO: return Dim.const(len(n.const))
        return new_sym(f"~len{n.id}", 0)

    def fmt(self, x, spec, conv, st):
        if isinstance(x, ExcV) and len(x.args) == 1 and x.explicit and conv in (-1, 115) and not spec and x.name().split(".")[-1] != "KeyError":
            return self.fmt(x.args[0], spec, -1, st)       # the text of an exception is its message
        n = self.I.node_of(x, st)
        if n.const is not NO and (n.const is None or isinstance(n.const, (str, int, float))) and isinstance(spec, str) and not isinstance(x, ExcV):
            try: return self.const(format({114: repr, 97: ascii, 115: str}.get(conv, lambda y: y)(n.const), spec))
            except (ValueError, TypeError): pass
        if n.dt == "s" and spec == "" and conv in (-1, 115) and isinstance(x, Node): return n
        o = self.I.obj(x, st)
        if spec and isinstance(o, (ListO, DictO)): self.I.must_raise(st, "TypeError", "unsupported format string")
        if spec and n.dt == "N": self.I.must_raise(st, "TypeError", "unsupported format string passed to NoneType")
        return self.g.mk("fmt", [n], (spec if spec is not None else "?", conv), (), "s")

    def percent(self, a, b, st):
        """'%9.16f' % x as concatenation of formatted values, or None."""
        if a.const is NO: return None
        vals = list(b.items) if isinstance(b, TupleV) else [b]
        parts, at, k = [], 0, 0
        for m in re.finditer(r"%(?:(%)|([-+ #0]*)(\d+)?(\.\d+)?([diouxXeEfFgGcrsa]))", a.const):
            parts.append(self.const(a.const[at:m.start()])); at = m.end()
            if m.group(1): parts.append(self.const("%")); continue
            if k >= len(vals): self.I.must_raise(st, "TypeError", "not enough arguments for format string")
            fl, w, p, t = m.group(2), m.group(3) or "", m.group(4) or "", m.group(5)
            if t in "uoxXc": return None
            al = ("<" if "-" in fl else ">") if t in "rsa" or "-" in fl else ""
            spec = (al + ("+" if "+" in fl else " " if " " in fl else "") + ("0" if "0" in fl and not al else "") + w + p) if w or p or fl else ""
            parts.append(self.fmt(vals[k], spec if t in "rsa" else spec + ("d" if t == "i" else t), {"r": 114, "a": 97}.get(t, -1), st)); k += 1
        if "%" in a.const[at:]: return None
        if k < len(vals) and not isinstance(self.I.obj(b, st), DictO): self.I.must_raise(st, "TypeError", "not all arguments converted during string formatting")
        return self.concat_str(parts + [self.const(a.const[at:])])

    def formatted(self, s, args, kw, st):
        """'{:9.16f}'.format(x) as concatenation of formatted values, or None."""
        if s.const is NO: return None
        parts, auto = [], 0
        try: fields = list(string.Formatter().parse(s.const))
        except ValueError: self.I.must_raise(st, "ValueError", "invalid format string")
        for lit, name, spec, conv in fields:
            parts.append(self.const(lit))
            if name is None: continue
            m = re.fullmatch(r"(\w*)((?:\[\w+\])*)", name)
            if m is None or "{" in (spec or ""): return None
            base = m.group(1)
            if base == "": base, auto = str(auto), auto + 1
            if base.isdigit():
                if int(base) >= len(args): self.I.must_raise(st, "IndexError", "replacement index out of range")
                v = args[int(base)]
            elif base in kw: v = kw[base]
            else: self.I.must_raise(st, "KeyError", base)
            for key in re.findall(r"\[(\w+)\]", m.group(2)): v = self.getitem(v, self.const(int(key) if key.isdigit() else key), st)
            parts.append(self.fmt(v, spec or "", ord(conv) if conv else -1, st))
        return self.concat_str(parts)

    def concat_str(self, parts):
        out = []
        for p in parts:
            for q in (p.args if isinstance(p, Node) and p.op == "strcat" else [p]):
                if out and q.const is not NO and out[-1].const is not NO: out[-1] = self.const(out[-1].const + q.const)
                elif q.const == "": continue
                else: out.append(q)
        if not out: return self.const("")
        if len(out) == 1: return out[0]
        return self.g.mk("strcat", out, None, (), "s")

    def call_str(self, s, name, args, kw, st):
        I = self.I
        if name == "format":
            r = self.formatted(s, args, kw, st)
            if r is not None: return r
        if name in STR_PURE:
            ns = [I.node_of(a, st) for a in args]
            if s.const is not NO and all(a.const is not NO for a in ns) and not kw:
                try: return self.const(getattr(s.const, name)(*[a.const for a in ns]))
                except Exception: pass
            return self.strop(name, [s] + ns)
        if name in STR_BOOL:
            ns = [I.node_of(a, st) for a in args]
            if s.const is not NO and all(a.const is not NO for a in ns):
                try: return self.const(getattr(s.const, name)(*[a.const for a in ns]))
                except Exception: pass
            return self.strop(name, [s] + ns, dt="b")
        if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
            ns = [I.node_of(a, st) for a in args]
            if s.const is not NO and all(a.const is not NO for a in ns) and not kw:
                r = getattr(s.const, name)(*[a.const for a in ns])
                vals = [self.const(x) for x in r]
                return TupleV(vals) if "partition" in name else I.new_list(st, vals, key="split")
            base = self.g.mk("str:" + name, [s] + ns)
            if "partition" in name: return TupleV([self.g.mk("item", [base], i, (), "s") for i in range(3)])
            mn = 1 if ns and name in ("split", "rsplit") and ns[0].dt == "s" else 0
            ln = new_sym(f"~sp{base.id}", mn)
            if name == "splitlines" : ln = new_sym(f"~sp{base.id}", 0)
            return I.new_list(st, None, self.g.mk("anyelem", [base], None, (), "s", meta={"token": not ns}), ln, key="split")
        if name == "join":
            o = I.obj(args[0], st)
            if isinstance(o, ListO) and o.items is not None:
                parts = []
                for i, x in enumerate(o.items):
                    n = I.node_of(x, st)
                    if n.dt in ("i", "f", "b", "N"): I.must_raise(st, "TypeError", "sequence item: expected str instance")
                    if i: parts.append(s)
                    parts.append(n)
                return self.concat_str(parts)
            return self.strop("join", [s, I.node_of(args[0], st)])
        if name in ("find", "rfind", "count", "index", "rindex"):
            ns = [I.node_of(a, st) for a in args]
            if s.const is not NO and all(a.const is not NO for a in ns):
                try: return self.const(getattr(s.const, name)(*[a.const for a in ns]))
                except ValueError: I.must_raise(st, "ValueError", "substring not found")
                except TypeError: pass
        if name in ("find", "rfind", "count"): return self.strop(name, [s] + [I.node_of(a, st) for a in args], dt="i")
        if name in ("index", "rindex"):
            I.may_raise(st, "ValueError", "substring not found")
            return self.strop(name, [s] + [I.node_of(a, st) for a in args], dt="i")
        I.note("str method", name)
        return self.strop("m:" + name, [s] + [I.node_of(a, st) for a in args], dt=None)

    # ---------------------------------------------------------------- operators
    def unop(self, op, v, st):
        if op == "Not": return self.const(False)
        if isinstance(v, Ref) and isinstance(self.I.obj(v, st), ArrO) or isinstance(v, Node):
            return self.np_unop(op, v, st)
        if isinstance(v, Union):
            return self.I.over(v, lambda x, y: self.unop(op, x, y), st)
        if isinstance(v, Ref) and isinstance(self.I.obj(v, st), InstO): return self.np_unop(op, self.I.node_of(v, st), st)
        self.I.must_raise(st, "TypeError", "bad operand type for unary operator")

    def kind(self, v, st):
        if isinstance(v, Node):
            if v.dt == "s": return "str"
            if v.dt == "N": return "none"
            if v.shape == () and v.dt in ("i", "f", "b", "c", "n"): return "num"
            return "unk"
        if isinstance(v, TupleV): return "tuple"
        o = self.I.obj(v, st)
        if isinstance(o, ArrO): return "arr"
        if isinstance(o, ListO): return o.kind if o.kind in ("list", "set") else "iter"
        if isinstance(o, DictO): return "dict"
        if isinstance(o, InstO): return "inst"
        return "other"

    def binop(self, op, a, b, st):
        I = self.I
        ka, kb = self.kind(a, st), self.kind(b, st)
        if ka in ("str",) or kb in ("str",):
            if op == "Add":
                if ka == "str" and kb == "str": return self.concat_str([a, b])
                if {ka, kb} & {"num", "none", "list", "tuple", "dict", "arr"}: I.must_raise(st, "TypeError", "can only concatenate str")
                return self.concat_str([I.node_of(a, st), I.node_of(b, st)])
            if op == "Mult" and {ka, kb} <= {"str", "num"}:
                s, n = (a, b) if ka == "str" else (b, a)
                if n.dt == "f": I.must_raise(st, "TypeError", "can't multiply sequence by non-int")
                if s.const is not NO and n.const is not NO: return self.const(s.const * n.const)
                return self.strop("repeat", [s, n])
            if op == "Div" and ka == "unk" or kb == "unk": return self.g.mk("call:binop" + op, [I.node_of(a, st), I.node_of(b, st)])
            if op == "Mod" and ka == "str":
                r = self.percent(a, b, st)
                if r is not None: return r
                return self.strop("percent", [a, I.node_of(b, st)])
            if ka == "inst" or kb == "inst": return self.inst_binop(op, a, b, st)
            I.must_raise(st, "TypeError", f"unsupported operand types for {op}: {ka}, {kb}")
        if ka == "inst" or kb == "inst":
            return self.inst_binop(op, a, b, st)
        if ka == "arr" or kb == "arr":
            if kb in ("none", "dict", "set", "other") or ka in ("none", "dict", "set", "other"): I.must_raise(st, "TypeError", f"unsupported operand types for {op}")
            return self.np_binop(op, a, b, st)
        if ka in ("list", "tuple") or kb in ("list", "tuple"):
            if op == "Add" and ka == kb:
                if ka == "tuple": return TupleV(a.items + b.items)
                return self.list_concat(a, b, st)
            if op == "Mult":
                s, n = (a, b) if ka in ("list", "tuple") else (b, a)
                n = I.node_of(n, st)
                if n.dt in ("f", "s", "N"): I.must_raise(st, "TypeError", "can't multiply sequence by non-int")
                k = self.kind(s, st)
                items = list(s.items) if k == "tuple" else (list(I.obj(s, st).items) if I.obj(s, st).items is not None else None)
                if n.const is not NO and items is not None and len(items) * max(n.const, 0) <= 200:
                    r = items * n.const
                    return TupleV(r) if k == "tuple" else I.new_list(st, r, key="mul")
                e = None
                if items is not None:
                    for x in items: e = I.join_val(e, x)
                    ln0 = Dim.const(len(items))
                else: e, ln0 = I.obj(s, st).elem, I.obj(s, st).length
                ln = None
                if n.ival is not None and ln0 is not None and dim_sign(st.norm(n.ival), st.mins) in ("+", "0", ">="): ln = ln0 * st.norm(n.ival)
                else: ln = self.fresh_len(("mul", n.id, ln0))
                return I.new_list(st, None, e, ln, key="mul")
            if "unk" in (ka, kb): return self.g.mk("call:binop" + op, [I.node_of(a, st), I.node_of(b, st)])
            I.must_raise(st, "TypeError", f"unsupported operand types for {op}: {ka}, {kb}")
        if ka in ("none", "dict", "set", "iter", "other") or kb in ("none", "dict", "set", "iter", "other"):
            if ka == kb == "set" and op in ("BitAnd", "BitOr", "Sub", "BitXor"):
                oa, ob = I.obj(a, st), I.obj(b, st)
                e = oa.elem
                for o in (oa, ob):
                    for x in o.items or ([o.elem] if o.elem is not None else []): e = I.join_val(e, x)
                return I.new_list(st, None, e, self.fresh_len("setop"), kind="set", key="setop")
            if ka == kb == "dict" and op == "BitOr":
                oa, ob = I.obj(a, st), I.obj(b, st)
                return I.alloc(st, DictO({**oa.items, **ob.items}, I.join_val(oa.key, ob.key), I.join_val(oa.val, ob.val), oa.complete and ob.complete), "dictor")
            if op == "BitOr" : return ExtV("types.UnionType")
            if op == "Div" and "str" in (ka, kb): pass
            I.must_raise(st, "TypeError", f"unsupported operand types for {op}: {ka}, {kb}")
        return self.np_binop(op, a, b, st)

    def list_concat(self, a, b, st):
        I = self.I
        oa, ob = I.obj(a, st), I.obj(b, st)
        if oa.items is not None and ob.items is not None and len(oa.items) + len(ob.items) < 200:
            return I.new_list(st, list(oa.items) + list(ob.items), key="cat")
        e = None
        for o in (oa, ob):
            for x in (o.items if o.items is not None else ([o.elem] if o.elem is not None else [])): e = I.join_val(e, x)
        ln = oa.length + ob.length if oa.length is not None and ob.length is not None else None
        return I.new_list(st, None, e, ln, key="cat")

    def inplace(self, op, a, b, st):
        I = self.I
        k = self.kind(a, st)
        if k == "arr": return self.np_inplace(op, a, b, st)
        if k == "list" and op == "Add":
            I.mutated(st, a, "+=")
            o = st.heap[a.oid]
            self.extend(a, b, st)
            return a
        if k == "list" and op == "Mult":
            I.mutated(st, a, "*=")
            r = self.binop(op, a, b, st)
            st.heap[a.oid] = I.obj(r, st)
            return a
        if k in ("set", "dict") and op in ("BitOr", "BitAnd", "Sub"):
            I.mutated(st, a, op)
            r = self.binop(op, a, b, st)
            if isinstance(r, Ref): st.heap[a.oid] = I.obj(r, st)
            return a
        if k == "inst":
            h = I.obj(a, st)
            if isinstance(h.cls, ClassV):
                m, _ = h.cls.lookup("__i" + {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv"}.get(op, op.lower()) + "__")
                if m is not None: return I.call_func(m, [a, b], {}, st)
        return I.binop(op, a, b, st)

    def extend(self, ref, b, st):
        I = self.I
        o = st.heap[ref.oid]
        sp = self.iterate(b, st, _FakeNode(*I.cur[1:]))
        if sp[0] == "exact" and o.items is not None and len(o.items) + len(sp[1]) < 200:
            st.heap[ref.oid] = ListO(list(o.items) + list(sp[1]), kind=o.kind); return
        e = None
        for x in (o.items if o.items is not None else ([o.elem] if o.elem is not None else [])): e = I.join_val(e, x)
        if sp[0] == "exact":
            for x in sp[1]: e = I.join_val(e, x)
            n = Dim.const(len(sp[1]))
        else:
            ob = I.obj(b, st)
            el = sp[1](st) if callable(sp[1]) else sp[1]
            e = I.join_val(e, el); n = sp[2]
        st.heap[ref.oid] = ListO(None, e, o.length + n if o.length is not None and n is not None else None, o.kind)

    # ---------------------------------------------------------------- comparison
    def compare(self, op, a, b, st):
        I = self.I
        if op in ("In", "NotIn"):
            r = self.contains(a, b, st)
            return I.not_(r) if op == "NotIn" and r.const is NO else (self.const(not r.const) if op == "NotIn" else r)
        if op in ("Is", "IsNot"):
            r = self.identical(a, b, st)
            if r is None:
                n = self.g.mk("is", [I.node_of(a, st), I.node_of(b, st)], None, (), "b")
                if isinstance(a, Node) and isinstance(b, Node) and a.dt in ("i",) and b.dt in ("i",): n.meta = {"intis": True}
                return n if op == "Is" else I.not_(n)
            return self.const(r if op == "Is" else not r)
        if op in ("Eq", "NotEq"):
            r = self.dtype_equal(a, b, st)
            if r is not None: return self.const(r if op == "Eq" else not r)
        ka, kb = self.kind(a, st), self.kind(b, st)
        if "inst" in (ka, kb):
            r = self.inst_compare(op, a, b, st)
            if r is not None: return r
        if "arr" in (ka, kb):
            if "none" in (ka, kb):
                if op in ("Eq", "NotEq"): return self.np_cmp(op, a, b, st)
                I.must_raise(st, "TypeError", "unorderable")
            if "str" in (ka, kb):
                arr = a if ka == "arr" else b
                if op in ("Eq", "NotEq"): return self.np_cmp(op, a, b, st)
            return self.np_cmp(op, a, b, st)
        if op in ("Eq", "NotEq"):
            r = self.equal(a, b, st)
            if isinstance(r, bool): return self.const(r if op == "Eq" else not r)
            return r if op == "Eq" else I.not_(r)
        if "none" in (ka, kb) or {"str", "num"} == {ka, kb} or {"list", "num"} == {ka, kb} or {"dict"} & {ka, kb}:
            I.must_raise(st, "TypeError", f"'{op}' not supported between {ka} and {kb}")
        return self.np_cmp(op, a, b, st)

    def dtype_equal(self, a, b, st):
        """`x.dtype == something`: real arrays are double precision, integer arrays are int64"""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Node) and x.op == "attr" and x.attr == "dtype":
                k = x.args[0].dt
                if k not in ("f", "i", "b", "c"): return None
                nm = y.name.split(".")[-1].rstrip("_") if isinstance(y, ExtV) else y.const if isinstance(y, Node) and isinstance(y.const, str) else None
                if nm is None and not (isinstance(y, Node) and y.op == "attr" and y.attr == "dtype"): return None
                o = self.dtype_of(y, st, None)
                if o is None: return None
                if o != k: return False
                return True if nm in ("float", "float64", "double", "int", "int64", "bool") and (x.meta or {}).get("lib") != "torch" else None
        return None

    def identical(self, a, b, st):
        if isinstance(a, Node) and isinstance(b, Node):
            if "N" in (a.dt, b.dt):
                if a.dt == b.dt: return True
                if a.dt is not None and b.dt is not None: return False
                return None
            if a.const is not NO and b.const is not NO:
                if isinstance(a.const, bool) or isinstance(b.const, bool): return a.const is b.const
                if type(a.const) is int and type(b.const) is int and a.const == b.const and -5 <= a.const <= 256: return True
                if type(a.const) != type(b.const) or a.const != b.const: return False
            if a.dt == "i" and b.dt == "i" and a.ival is not None and b.ival is not None and a is b and a.op != "const":
                return None
            return True if a is b and a.dt not in ("i", "f") else None
        if isinstance(a, Ref) and isinstance(b, Ref): return True if a == b else False
        if isinstance(a, Node) and a.dt == "N" or isinstance(b, Node) and b.dt == "N":
            o = b if isinstance(a, Node) and a.dt == "N" else a
            return False if not isinstance(o, Node) else None
        if isinstance(a, (ClassV, ExtV, FuncV)) and isinstance(b, (ClassV, ExtV, FuncV)): return a == b
        if type(a) != type(b): return None
        return None

    def equal(self, a, b, st):
        """True/False or node"""
        I = self.I
        if isinstance(a, Node) and isinstance(b, Node):
            if a.const is not NO and b.const is not NO:
                try: return bool(a.const == b.const)
                except Exception: pass
            if "N" in (a.dt, b.dt) and a.dt != b.dt and a.dt is not None and b.dt is not None: return False
            if {a.dt, b.dt} == {"s", "i"} or {a.dt, b.dt} == {"s", "f"}: return False
            return self.cmp_node("==", a, b, st)
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            if len(a.items) != len(b.items): return False
            rs = [self.equal(x, y, st) for x, y in zip(a.items, b.items)]
            if any(r is False for r in rs): return False
            ns = [r for r in rs if r is not True]
            # decide what can be decided
            ns2 = []
            for n in ns:
                t = I.truth_node(n, st)
                if t is False: return False
                if t is None: ns2.append(n)
            if not ns2: return True
            return ns2[0] if len(ns2) == 1 else self.g.mk("and", ns2, None, (), "b")
        ka, kb = self.kind(a, st), self.kind(b, st)
        if ka == "unk" or kb == "unk" or ka == "inst" or kb == "inst":
            return self.g.mk("cmp:==", self._ord([I.node_of(a, st), I.node_of(b, st)]), None, (), "b")
        if ka != kb and not ({ka, kb} <= {"num", "arr"}): return False
        if isinstance(a, Ref) and a == b: return True
        oa, ob = I.obj(a, st), I.obj(b, st)
        if isinstance(oa, ListO) and isinstance(ob, ListO):
            if oa.items is not None and ob.items is not None and oa.kind == ob.kind == "set":
                ks = [[x.const if isinstance(x, Node) else NO for x in o.items] for o in (oa, ob)]
                if NO not in ks[0] and NO not in ks[1]: return set(ks[0]) == set(ks[1])
                return self.g.mk("cmp:==", self._ord([I.node_of(a, st), I.node_of(b, st)]), None, (), "b")
            if oa.items is not None and ob.items is not None:
                return self.equal(TupleV(oa.items), TupleV(ob.items), st)
            if oa.length is not None and ob.length is not None and dim_sign(st.norm(oa.length) - st.norm(ob.length), st.mins) in ("+", "-"): return False
        na, nb = I.node_of(a, st), I.node_of(b, st)
        return self.g.mk("cmp:==", self._ord([na, nb]), None, (), "b")

    def _ord(self, xs): return sorted(xs, key=lambda n: n.id)

    def ambient(self, v, st):
        """reading an ambient object (os.environ, sys.argv, ...)"""
        if v.name in ("os.environ", "sys.argv", "sys.flags", "sys.path", "os.environb"):
            n = self.I.top(v.name); self.I.event("nondet", st, what=v.name, node=n); return n
        return None

    def contains(self, a, b, st):
        I = self.I
        if isinstance(b, ExtV) and self.ambient(b, st) is not None: return self.g.mk("call:in ambient", [self.ambient(b, st)], None, (), "b")
        n = I.node_of(a, st)
        if isinstance(b, Node):
            if b.dt == "s":
                if n.const is not NO and b.const is not NO: return self.const(n.const in b.const)
                if n.dt in ("i", "f", "N"): I.must_raise(st, "TypeError", "'in <string>' requires string")
                return self.strop("contains", [b, n], dt="b")
            if b.dt in ("N", "i", "f", "b"): I.must_raise(st, "TypeError", "argument is not iterable")
            return self.g.mk("in", [n, b], None, (), "b")
        if isinstance(b, Union):
            return I.over(b, lambda x, y: self.contains(a, x, y), st)
        o = I.obj(b, st)
        items = None
        if isinstance(b, TupleV): items = list(b.items)
        elif isinstance(o, ListO) and o.items is not None: items = list(o.items)
        elif isinstance(o, DictO):
            k = self.ckey(a)
            if o.complete:
                if k is not NO: return self.const(k in o.items)
                if self.member_fact(n, b, o, st): return self.const(True)
                return self.g.mk("inkeys", [n, self.keys_node(o)], None, (), "b")
            if k is not NO and k in o.items: return self.const(True)
            return self.g.mk("in", [n, I.node_of(b, st)], None, (), "b")
        if items is not None and len(items) <= 130:
            ns = []
            for x in items:
                r = self.equal(a, x, st) if not (self.kind(a, st) == "arr" or self.kind(x, st) == "arr") else self.g.mk("cmp:==", self._ord([n, I.node_of(x, st)]), None, (), "b")
                if r is True: return self.const(True)
                if r is not False:
                    t = I.truth_node(r, st)
                    if t is True: return self.const(True)
                    if t is None: ns.append(r)
            if not ns: return self.const(False)
            return ns[0] if len(ns) == 1 else self.g.mk("or", ns, None, (), "b")
        if isinstance(o, InstO) and isinstance(o.cls, ClassV):
            m, _ = o.cls.lookup("__contains__")
            if m is not None: return I.call_func(m, [b, a], {}, st)
        return self.g.mk("in", [n, I.node_of(b, st)], None, (), "b")

    # ---------------------------------------------------------------- isinstance / types
    def type_names(self, v, st):
        """set of builtin type names the value can have, or None when unknown"""
        if isinstance(v, Node):
            if v.shape is not None and v.shape != (): return {"numpy.ndarray"}
            m = (v.meta or {}).get("pytype")
            if m: return {m}
            return {"i": {"int"}, "f": {"float"}, "b": {"bool", "int"}, "s": {"str"}, "N": {"NoneType"}, "c": {"complex"}}.get(v.dt) if v.shape == () or v.dt in ("N", "s") else None
        if isinstance(v, TupleV): return {"tuple"}
        o = self.I.obj(v, st)
        if isinstance(o, ArrO): return {"numpy.ndarray"} if o.lib == "np" else {"torch.Tensor"}
        if isinstance(o, ListO): return {{"list": "list", "set": "set", "range": "range"}.get(o.kind, "generator")}
        if isinstance(o, DictO): return {"dict"}
        if isinstance(v, FuncV): return {"function"}
        return None

    def isinstance_(self, v, cls, st):
        if isinstance(cls, TupleV):
            rs = [self.isinstance_(v, c, st) for c in cls.items]
            return True if True in rs else (None if None in rs else False)
        if isinstance(cls, Ref) or cls == ExtV("types.UnionType"): return None
        if isinstance(v, Union):
            rs = {self.isinstance_(x, cls, st) for x in v.vals}
            return rs.pop() if len(rs) == 1 else None
        o = self.I.obj(v, st)
        if isinstance(o, InstO) and isinstance(o.cls, ClassV):
            if cls in o.cls.mro(): return True
            if isinstance(cls, ClassV): return False
            if isinstance(cls, ExtV): return True if cls.name in ("builtins.object",) else (True if any(b.name == cls.name for b in o.cls.ext_bases()) else (False if cls.name.startswith("builtins.") or cls.name in ("numpy.ndarray", "pathlib.Path") else None))
        if isinstance(o, InstO):
            n = o.cls.name
            if isinstance(cls, ClassV): return False
            if cls.name.split(".")[-1] == n.split(".")[-1]: return True
            return False if cls.name.startswith("builtins.") else None
        if isinstance(cls, ClassV): return False if not isinstance(v, Node) or v.dt is not None else None
        if not isinstance(cls, ExtV): return None
        c = cls.name[9:] if cls.name.startswith("builtins.") else cls.name
        if c == "object": return True
        ts = self.type_names(v, st)
        if ts is None: return None
        if c in ts: return True
        if isinstance(v, Node) and (v.meta or {}).get("np") and v.shape == ():   # numpy scalar
            if c == "float" and v.dt == "f": return True
            if c in ("int",) and v.dt == "i": return False
        if c == "numpy.ndarray" and "torch.Tensor" in ts: return False
        fam = {"numbers.Number": {"int", "float", "bool", "complex"}, "numbers.Real": {"int", "float", "bool"}, "numbers.Integral": {"int", "bool"},
               "collections.abc.Sequence": {"list", "tuple", "str", "range"}, "typing.Sequence": {"list", "tuple", "str", "range"},
               "collections.abc.Iterable": {"list", "tuple", "str", "dict", "set", "range", "generator", "numpy.ndarray", "torch.Tensor"},
               "typing.Iterable": {"list", "tuple", "str", "dict", "set", "range", "generator", "numpy.ndarray", "torch.Tensor"},
               "os.PathLike": set(), "pathlib.Path": set(), "numpy.integer": set(), "numpy.floating": set(), "numpy.generic": set(), "numpy.ndarray": set()}
        if c in fam: return bool(ts & fam[c])
        if cls.name.startswith("builtins.") or cls.name in ("torch.Tensor", "xml.etree.ElementTree.Element"): return False
        return None

    # ---------------------------------------------------------------- attributes
    def getattr(self, ob, name, st):
        I = self.I
        if isinstance(ob, ExtV):
            if name in ("__name__", "__qualname__"): return self.const(ob.name.split(".")[-1])
            if ob.name.split(".")[0] in I.absent: I.must_raise(st, "NameError", f"{ob.name} is not available")
            return self.canon_ext(ob.name + "." + name)
        if isinstance(ob, Ref):
            o = st.heap.get(ob.oid)
            if isinstance(o, ArrO): return self.arr_attr(ob, o, name, st)
            if isinstance(o, (ListO, DictO)):
                k = self.kind(ob, st)
                pt = {"list": list, "dict": dict, "set": set}.get(k)
                if pt is not None and not hasattr(pt, name): I.must_raise(st, "AttributeError", f"'{k}' object has no attribute '{name}'")
                return BoundV(ob, name)
        if isinstance(ob, TupleV):
            if ob.names and name in ob.names: return ob.items[ob.names.index(name)]
            if not hasattr(tuple, name): I.must_raise(st, "AttributeError", f"'tuple' object has no attribute '{name}'")
            return BoundV(ob, name)
        if isinstance(ob, Node):
            if ob.dt == "N": I.must_raise(st, "AttributeError", f"'NoneType' object has no attribute '{name}'")
            if ob.dt == "s":
                if not hasattr(str, name): I.must_raise(st, "AttributeError", f"'str' object has no attribute '{name}'")
                return BoundV(ob, name)
            if ob.shape == () and ob.dt in ("i", "f", "b"):
                if (ob.meta or {}).get("py") and not hasattr(float, name) and not hasattr(int, name):
                    I.must_raise(st, "AttributeError", f"'{ob.dt}' object has no attribute '{name}'")
                return self.scalar_attr(ob, name, st)
            return self.node_attr(ob, name, st)
        if isinstance(ob, ExcV):
            if name == "args": return TupleV(ob.args)
            return self.g.mk("attr", [I.node_of(ob, st)], name)
        if isinstance(ob, FuncV):
            if name in ("__name__", "__qualname__"): return self.const(ob.name)
            return self.g.mk("attr", [I.node_of(ob, st)], name)
        if isinstance(ob, BoundV):
            if name == "__name__": return self.const(ob.func if isinstance(ob.func, str) else getattr(ob.func, "name", "?"))
            return BoundV(ob, name)
        if isinstance(ob, PropV):
            if name == "fget" and ob.fget: return ob.fget
            if name == "fset" and ob.fset: return ob.fset
            return BoundV(ob, name)
        return I.top("getattr " + name)

    # ---------------------------------------------------------------- calls on values
    def call_unknown(self, f, args, kw, st):
        I = self.I
        n = I.node_of(f, st)
        for a in args:
            if isinstance(a, Ref): I.event("escape", st, val=a, to="unknown callable")
        return self.opaque("call", [n] + [I.node_of(a, st) for a in args] + [I.node_of(v, st) for v in kw.values()], st, attr=tuple(kw))

    def opaque(self, op, nodes, st, attr=None, shape=None, dt=None):
        self.I.note("opaque", op)
        return self.g.mk(op, nodes, attr, shape, dt)

    def call_method(self, f, args, kw, st):
        """f: BoundV(self, name | ExtV)."""
        I = self.I
        s, name = f.self, f.func
        if isinstance(name, ExtV): return self.call_base_method(f, args, kw, st)
        if isinstance(s, Node):
            if s.dt == "s": return self.call_str(s, name, args, kw, st)
            return self.node_method(s, name, args, kw, st)
        if isinstance(s, TupleV):
            if name == "index":
                for i, x in enumerate(s.items):
                    if self.equal(x, args[0], st) is True: return self.const(i)
                I.may_raise(st, "ValueError", "tuple.index"); return I.top("tuple.index", shape=(), dt="i")
            if name == "count": return I.top("tuple.count", shape=(), dt="i")
            return I.top("tuple method")
        o = I.obj(s, st)
        if isinstance(o, ArrO): return self.arr_method(s, o, name, args, kw, st)
        if isinstance(o, ListO): return self.list_method(s, o, name, args, kw, st)
        if isinstance(o, DictO): return self.dict_method(s, o, name, args, kw, st)
        if isinstance(o, InstO): return self.inst_method(s, o, name, args, kw, st)
        if isinstance(s, PropV) and name in ("setter", "getter", "deleter"): return s
        if isinstance(s, BoundV): return I.top("bound attr call")
        I.note("method", str(name))
        return self.opaque("call:." + str(name), [I.node_of(s, st)] + [I.node_of(a, st) for a in args], st)

    def list_method(self, s, o, name, args, kw, st):
        I = self.I
        items, e = o.items, o.elem
        if name in ("append", "add"):
            I.mutated(st, s, "." + name)
            I.order.setdefault(s.oid, set()).add("append")
            if o.kind == "set" :
                if o.items is not None and self.ckey(args[0]) is not NO and all(self.ckey(x) is not NO for x in o.items):
                    if self.ckey(args[0]) in {self.ckey(x) for x in o.items}: return self.const(None)
                    st.heap[s.oid] = ListO(list(o.items) + [args[0]], kind="set"); return self.const(None)
                for x in o.items or (): e = I.join_val(e, x)
                st.heap[s.oid] = ListO(None, I.join_val(e, args[0]), self.fresh_len("setadd", 1), "set"); return self.const(None)
            self.list_append(s, args[0], st); return self.const(None)
        if name in ("extend", "update"):
            I.mutated(st, s, "." + name)
            self.extend(s, args[0], st)
            if o.kind == "set":
                oo = st.heap[s.oid]; e = oo.elem
                for x in oo.items or (): e = I.join_val(e, x)
                st.heap[s.oid] = ListO(None, e, self.fresh_len("setupd"), "set")
            return self.const(None)
        if name in ("insert", "appendleft"):
            I.mutated(st, s, "." + name)
            if name == "appendleft": args = [self.const(0)] + list(args)
            k = self.ckey(args[0])
            I.order.setdefault(s.oid, set()).add("front" if k == 0 else "insert")
            if items is not None and isinstance(k, int):
                it = list(items); it.insert(k, args[1]); st.heap[s.oid] = ListO(it, kind=o.kind)
            else:
                for x in items or (): e = I.join_val(e, x)
                st.heap[s.oid] = ListO(None, I.join_val(e, args[1]), o.length + D1 if o.length is not None else None, o.kind)
            return self.const(None)
        if name in ("pop", "popleft"):
            if o.kind == "set":
                I.consumers.append("set.pop"); self.set_iterated(o, st, None); I.consumers.pop()
            I.mutated(st, s, ".pop")
            if items is not None:
                if not items: I.must_raise(st, "IndexError", "pop from empty list")
                k = self.ckey(args[0]) if args else (-1 if name == "pop" else 0)
                if isinstance(k, int) and -len(items) <= k < len(items):
                    it = list(items); v = it.pop(k); st.heap[s.oid] = ListO(it, kind=o.kind); return v
                for x in items: e = I.join_val(e, x)
            ln = o.length
            if ln is None or dim_sign(st.norm(ln), st.mins) != "+":
                I.may_raise(st, "IndexError", "pop from empty list", LOST if ln is None else st.norm(ln).syms())
                if ln is not None: I.atleast(st.norm(ln) - D1, st)
            st.heap[s.oid] = ListO(None, e, st.norm(ln) - D1 if ln is not None else None, o.kind)
            return e if e is not None else I.top("pop")
        if name in ("remove", "discard"):
            I.mutated(st, s, "." + name)
            if name == "remove": I.may_raise(st, "ValueError" if o.kind == "list" else "KeyError", "element not present")
            for x in items or (): e = I.join_val(e, x)
            st.heap[s.oid] = ListO(None, e, self.fresh_len("rm"), o.kind); return self.const(None)
        if name in ("clear",):
            I.mutated(st, s, ".clear"); st.heap[s.oid] = ListO([], kind=o.kind); return self.const(None)
        if name in ("sort", "reverse"):
            I.mutated(st, s, "." + name)
            I.order.setdefault(s.oid, set()).add(name)
            if items is not None and name == "reverse": st.heap[s.oid] = ListO(list(items)[::-1], kind=o.kind); return self.const(None)
            if items is not None:
                its = self.in_order(items, kw, st)
                if its is not None: st.heap[s.oid] = ListO(its, kind=o.kind); return self.const(None)
            for x in items or (): e = I.join_val(e, x)
            if name == "reverse" and isinstance(o.src, Node) and o.length is not None:
                b = self.backwards(e, o.src, o.length, st)
                if b is not None: st.heap[s.oid] = ListO(None, b, o.length, o.kind, o.src); return self.const(None)
            st.heap[s.oid] = ListO(None, e, o.length, o.kind); return self.const(None)
        if name == "copy":
            return I.alloc(st, ListO(items, e, o.length, o.kind, o.src), "copy")
        if name == "index":
            if items is not None:
                for i, x in enumerate(items):
                    r = self.equal(x, args[0], st)
                    if r is True: return self.const(i)
                    if r is not False: break
            I.may_raise(st, "ValueError", "list.index"); return self.g.mk("list.index", [I.node_of(s, st), I.node_of(args[0], st)], None, (), "i", meta={"bound": o.length})
        if name in ("count", "index") and items is not None and args and self.ckey(args[0]) is not NO and all(self.ckey(x) is not NO for x in items):
            ks = [self.ckey(x) for x in items]
            if name == "count": return self.const(ks.count(self.ckey(args[0])))
            if len(args) == 1 and self.ckey(args[0]) in ks: return self.const(ks.index(self.ckey(args[0])))
        if name == "count": return self.g.mk("list.count", [I.node_of(s, st), I.node_of(args[0], st)], None, (), "i")
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            for x in items or (): e = I.join_val(e, x)
            for a in args:
                sp = self.iterate(a, st, _FakeNode(*I.cur[1:]))
                for x in (sp[1] if sp[0] == "exact" else [sp[1](st) if callable(sp[1]) else sp[1]]): e = I.join_val(e, x)
            return I.new_list(st, None, e, self.fresh_len("setop"), kind="set", key="setop")
        if name in ("issubset", "issuperset", "isdisjoint"): return self.g.mk("call:" + name, [I.node_of(s, st), I.node_of(args[0], st)], None, (), "b")
        if name in ("__getitem__",): return self.getitem(s, args[0], st)
        if name == "__len__": return self.call_ext("builtins.len", [s], {}, st)
        if name == "__next__": return self.call_ext("builtins.next", [s], {}, st)
        I.note("list method", name)
        return I.top("list." + name)

    def dict_method(self, s, o, name, args, kw, st):
        I = self.I
        if name == "keys":
            if o.complete:
                r = I.new_list(st, [self.keyval(k) for k in o.items], kind="list", key="keys")
                return s
            return s
        if name in ("values", "items"):
            if o.complete:
                vs = list(o.items.values()) if name == "values" else [TupleV([self.keyval(k), v]) for k, v in o.items.items()]
                return I.new_list(st, vs, key=name)
            k, v = o.key, o.val
            for kk, vv in o.items.items(): k, v = I.join_val(k, self.keyval(kk)), I.join_val(v, vv)
            return I.new_list(st, None, v if name == "values" else TupleV([k, v]), o.length or self.fresh_len("dict"), key=name)
        if name in ("get", "setdefault", "pop"):
            k = self.ckey(args[0])
            dflt = args[1] if len(args) > 1 else self.const(None)
            if name != "get": I.mutated(st, s, "." + name)
            if k is not NO and k in o.items:
                v = o.items[k]
                if name == "pop": it = dict(o.items); del it[k]; st.heap[s.oid] = DictO(it, o.key, o.val, o.complete)
                return v
            if o.complete and k is not NO:
                if name == "pop" and len(args) < 2: I.must_raise(st, "KeyError", "dict.pop")
                if name == "setdefault": self.setitem(s, args[0], dflt, st, quiet=True)
                return dflt
            r = o.val
            for v in o.items.values(): r = I.join_val(r, v)
            if name == "pop" and len(args) < 2: I.may_raise(st, "KeyError", "dict.pop")
            n = I.node_of(args[0], st)
            if o.complete and o.items and name == "get":
                if self.member_fact(n, s, o, st): return self.getitem(s, args[0], st)
                if all(isinstance(v, Node) and v.const is not NO for v in o.items.values()):
                    lk = self.g.mk("lookup", [n, self.dict_node(s, o)], None, (), next(iter(o.items.values())).dt)
                    return I.join_val(lk, dflt)
            if name == "setdefault": self.setitem(s, args[0], dflt, st, quiet=True)
            return I.join_val(r, dflt)
        if name == "update":
            I.mutated(st, s, ".update")
            if args:
                o2 = I.obj(args[0], st)
                if isinstance(o2, DictO):
                    for k, v in o2.items.items(): self.setitem(s, self.keyval(k), v, st, quiet=True)
                    if not o2.complete: self.setitem(s, I.top("key"), o2.val, st, quiet=True)
                else: st.heap[s.oid] = DictO(o.items, I.top("key"), I.top("val"), False)
            for k, v in kw.items(): self.setitem(s, self.const(k), v, st, quiet=True)
            return self.const(None)
        if name == "copy": return I.alloc(st, DictO(o.items, o.key, o.val, o.complete, o.length), "copy")
        if name == "clear": I.mutated(st, s, ".clear"); st.heap[s.oid] = DictO(); return self.const(None)
        if name == "__contains__": return self.contains(args[0], s, st)
        I.note("dict method", name)
        return I.top("dict." + name)


class _FakeNode:
    def __init__(self, l=0, c=0): self.lineno, self.col_offset = l, c + 7000


from .interp import DeadFlow as DeadFlowT  # noqa: E402
