"""Whole-program abstract interpreter for the ramannoodle sources (never imports or runs them)."""
from __future__ import annotations
import ast, builtins, os
from .core import *

BUILTIN_EXC = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
EXT_EXC = {  # external exception classes -> builtin parent
    "numpy.linalg.LinAlgError": "ValueError",
    "xml.etree.ElementTree.ParseError": "SyntaxError", "defusedxml.ElementTree.ParseError": "SyntaxError",
    "defusedxml.common.DefusedXmlException": "ValueError", "defusedxml.DefusedXmlException": "ValueError",
    "io.UnsupportedOperation": "ValueError",
    "numpy._core._exceptions._UFuncOutputCastingError": "TypeError",
    "numpy.exceptions.AxisError": "ValueError",
}


class DeadFlow(Exception):
    pass


class Budget(Exception):
    pass


def modes_of(mode):
    """Possible constant values of an open mode; None when not known."""
    if not isinstance(mode, Node): return None
    if mode.is_const(): return {mode.const}
    if mode.op in ("phi", "where"):
        out = set()
        for a in (mode.args if mode.op == "phi" else mode.args[1:]):
            m = modes_of(a)
            if m is None: return None
            out |= m
        return out
    return None


def read_only(mode):
    m = modes_of(mode)
    return m is not None and all(isinstance(x, str) and not set(x) & set("wxa+") for x in m)


class Event:
    __slots__ = ("kind", "site", "data", "pc", "fn", "ctx", "facts")
    def __init__(self, kind, site, data, pc, fn, ctx): self.kind, self.site, self.data, self.pc, self.fn, self.ctx = kind, site, data, pc, fn, ctx
    def __repr__(self): return f"<{self.kind} {self.data} @{self.site}>"


class Frame:
    def __init__(self, func, mod):
        self.func, self.mod = func, mod
        self.returns = []
        self.yields = None
        self.loops = []   # stack of (breaks, continues)
        self.caught = []


class Interp:
    MAX_DEPTH = 48

    def __init__(self, root, absent=(), package="ramannoodle", budget=3_000_000):
        self.scoped = 0
        self.repo, self.absent, self.package = root, tuple(absent), package
        self.g = Graph()
        self.mods, self.oids, self.origin = {}, {}, {}
        self.ctx, self.ctxs = 0, {(): 0}
        self.frames, self.colls, self.events = [], [], []
        self.consumers = []
        self.order = {}
        self.notes = {}
        self.steps, self.budget = 0, budget
        self.cur = ("?", 0)
        self.g.owner = self
        self.site_fn = None
        self.hooks = {}
        self.batches = None         # {dataset: (name, number of batches)}: fixed numbers of batches
        self.born = {}              # list -> number of loops around its creation
        self.picked = {}            # list comprehensions with a filter
        self.lossy = {LOST[0]}      # extents that say how often a loop ran, not what was read
        self.assume = None          # function(node)->bool|None, used to fix chosen conditions
        self.depth = 0
        self.loopvars = {}
        self.call_count = 0
        self.functions_seen = set()
        self.throwlog = None        # [(exception, nothing written yet?, pc, loops, ctx)] when a check asks for it
        self.loopstack = []
        self.joining = None
        self.loopentry = []         # states before the enclosing loops
        self.tests = {}             # comparison -> extents compared with each other
        self.fixed = {}             # list -> {extent of its elements: the same extent in terms known before the loops}
        self.syms_memo = {}         # index leaves of the loops being executed
        self.slice_caps = {}
        self.last_returns = []
        self.base = State()
        from . import lib, domains
        self.ranges = domains.Range(self)
        self.lib = lib.Lib(self)
        self.modstate = self.base

    # ------------------------------------------------------------------ utilities
    def note(self, kind, msg=""):
        k = (kind, msg, self.cur)
        self.notes[k] = self.notes.get(k, 0) + 1

    def here(self):
        return self.cur

    def event(self, kind, st, **data):
        if kind == "fsop" or kind == "open" and not read_only(data.get("mode")): st.facts.pop(("ghost", "clean"), None)
        self.events.append(Event(kind, self.cur, data, st.pc, self.frames[-1].func.qual() if self.frames and self.frames[-1].func else "<module>",
                                 tuple((f.func.mod.name + "." + f.func.qual()) for f in self.frames if f.func)))

    def sub(self, key):
        k = (self.ctx, key)
        r = self.ctxs.get(k)
        if r is None: r = self.ctxs[k] = len(self.ctxs)
        return r

    def alloc(self, st, obj, key, origin=None):
        k = (self.ctx, self.cur, key)
        oid = self.oids.get(k)
        if oid is None:
            oid = self.oids[k] = len(self.oids) + 1
            self.origin[oid] = origin or ("alloc", self.cur)
        if origin: self.origin[oid] = origin
        st.heap[oid] = obj
        return Ref(oid)

    def over(self, v, f, st):
        """f(alternative, state) of a union: every alternative from the same state, the results joined
        (selected by the condition that selects the alternative, if there is one)"""
        vals = v.sel[1:] if v.sel is not None else sorted(v.vals, key=repr)
        sel = (v.sel[0], True) if v.sel is not None else None
        out = None
        for x in vals:
            y = st.fork()
            try: r = f(x, y)
            except DeadFlow: continue
            y.env["%v"] = r
            out = self.join(out, y, sel)
        if out is None: raise DeadFlow()
        r = out.env.pop("%v")
        self.become(st, out)
        return r

    def new_arr(self, st, content, key="a", base=None, lib="np", origin=None):
        return self.alloc(st, ArrO(content, base, lib), key, origin)

    def new_list(self, st, items=None, elem=None, length=None, kind="list", key="l", src=None):
        r = self.alloc(st, ListO(items, elem, length, kind, src), key)
        self.born[r.oid] = len(self.loopentry)
        return r

    def obj(self, v, st):
        return st.heap.get(v.oid) if isinstance(v, Ref) else None

    def const(self, v): return self.g.const(v)

    def top(self, why="", **k):
        self.note("top", why)
        return self.g.top(why, **k)

    # ------------------------------------------------------------------ array content
    def content(self, st, ref):
        o = st.heap.get(ref.oid)
        if not isinstance(o, ArrO): return self.node_of(ref, st)
        if o.base is None: return o.content
        boid, spec = o.base
        par = self.content(st, Ref(boid))
        return self.lib.apply_view(par, spec)

    def set_content(self, st, ref, node):
        """Replace the whole content of an array (through its base when it is a view)."""
        o = st.heap[ref.oid]
        if o.base is None:
            st.heap[ref.oid] = ArrO(node, None, o.lib)
        else:
            boid, spec = o.base
            par = self.content(st, Ref(boid))
            self.set_content(st, Ref(boid), self.lib.update_view(par, spec, node))

    def root(self, st, ref):
        oid = ref.oid
        for _ in range(50):
            o = st.heap.get(oid)
            if isinstance(o, ArrO) and o.base is not None: oid = o.base[0]
            else: return oid
        return oid

    def mutated(self, st, ref, how, **kv):
        r = self.root(st, ref)
        self.event("mut", st, oid=r, how=how, origin=self.origin.get(r), **kv)

    def node_of(self, v, st, depth=0, seen=()):
        g = self.g
        if isinstance(v, Node): return v
        if depth > 8: return g.top("deep value")
        if isinstance(v, TupleV): return g.mk("tuple", [self.node_of(x, st, depth + 1, seen) for x in v.items])
        if isinstance(v, Union):
            r = None
            if v.sel is not None:
                return g.select(v.sel[0], self.node_of(v.sel[1], st, depth + 1, seen), self.node_of(v.sel[2], st, depth + 1, seen))
            for x in sorted(v.vals, key=repr):
                n = self.node_of(x, st, depth + 1, seen)
                r = n if r is None else g.phi(r, n)
            return r if r is not None else g.top("empty union")
        if isinstance(v, Ref):
            if v.oid in seen: return g.top("cyclic")
            seen = seen + (v.oid,)
            o = st.heap.get(v.oid)
            if isinstance(o, ArrO): return self.content(st, v)
            if isinstance(o, ListO):
                if o.items is not None: return g.mk("list", [self.node_of(x, st, depth + 1, seen) for x in o.items], o.kind)
                if o.elem is None: return g.mk("listsum", [], (o.kind, o.length))
                return g.mk("listsum", [self.node_of(o.elem, st, depth + 1, seen)], (o.kind, o.length))
            if isinstance(o, DictO):
                a = []
                for k, x in o.items.items(): a += [g.const(k) if not isinstance(k, tuple) else g.top("key"), self.node_of(x, st, depth + 1, seen)]
                for x in (o.key, o.val):
                    if x is not None: a.append(self.node_of(x, st, depth + 1, seen))
                return g.mk("dict", a)
            if isinstance(o, InstO):
                if "__node__" in o.fields: return o.fields["__node__"]
                return g.mk("obj", [self.node_of(x, st, depth + 1, seen) for _, x in sorted(o.fields.items())], getattr(o.cls, "name", "?"))
            return g.top("dangling")
        if isinstance(v, ExtV): return g.mk("ext", (), v.name)
        if isinstance(v, BoundV): return g.mk("bound", [self.node_of(v.self, st, depth + 1, seen)], str(v.func))
        if isinstance(v, FuncV): return g.mk("func", (), v.mod.name + "." + v.qual())
        if isinstance(v, ClassV): return g.mk("class", (), v.name)
        if isinstance(v, ExcV): return g.mk("excv", [self.node_of(x, st, depth + 1, seen) for x in v.args], v.name())
        if isinstance(v, SliceV): return g.mk("slice", [self.node_of(x, st) for x in (v.lo, v.hi, v.step)])
        return g.mk("opaque", (), type(v).__name__)

    # ------------------------------------------------------------------ joins
    def join_val(self, a, b, ctrl=()):
        if a is b: return a
        if a == b: return a if not isinstance(a, Union) or a.sel == b.sel else Union(a.vals)
        if a is None: return b
        if b is None: return a
        if isinstance(a, Node) and isinstance(b, Node): 
            if (a.dt == "N") != (b.dt == "N"): return Union([a, b])
            return self.g.phi(a, b, ctrl)
        if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.items) == len(b.items):
            return TupleV([self.join_val(x, y, ctrl) for x, y in zip(a.items, b.items)], a.names)
        s = set()
        for x in (a, b): s |= x.vals if isinstance(x, Union) else {x}
        nodes = [x for x in s if isinstance(x, Node) and x.dt != "N"]
        if len(nodes) > 1:
            s -= set(nodes)
            n = nodes[0]
            sel, self.g.sel = self.g.sel, None
            for m in nodes[1:]: n = self.g.phi(n, m, ctrl)
            self.g.sel = sel
            s.add(n)
        if len(s) > 10: return self.g.top("wide union")
        if len(s) == 1: return next(iter(s))
        sel = self.g.sel
        if sel is not None: sel = (sel[0], a, b) if sel[1] else (sel[0], b, a)
        return Union(s, sel)

    def join_len(self, a, b, key):
        if a == b: return a
        if a is None or b is None: return None
        low = 0
        if self.joining is not None:
            lows = [dim_low(x.norm(n), x.mins) for x, n in zip(self.joining, (a, b))]
            low = max(0, min(lows)) if None not in lows else 0
        return new_sym(("jl", key, a, b) if low == 0 else ("jl", key, a, b, low), low)

    def join_obj(self, oid, a, b, ctrl):
        if a is b: return a
        if type(a) is not type(b): return a
        if isinstance(a, ArrO):
            if a == b: return a
            if a.base is None and b.base is None:
                return ArrO(self.g.phi(a.content, b.content, ctrl), None, a.lib)
            return a
        if isinstance(a, ListO):
            if a == b: return a
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return ListO([self.join_val(x, y, ctrl) for x, y in zip(a.items, b.items)], kind=a.kind)
            if a.items is None and b.items is None and a.elem is not None and b.elem is not None and a.length == b.length:
                return ListO(None, self.join_val(a.elem, b.elem, ctrl), a.length, a.kind)
            e = None
            self.g.sel = None
            for o in (a, b):
                if o.items is not None:
                    for x in o.items: e = self.join_val(e, x, ctrl)
                elif o.elem is not None: e = self.join_val(e, o.elem, ctrl)
            return ListO(None, e, self.join_len(a.length, b.length, oid), a.kind)
        if isinstance(a, DictO):
            if a == b: return a
            items = {}
            for k in list(a.items) + [k for k in b.items if k not in a.items]:
                x, y = a.items.get(k), b.items.get(k)
                items[k] = self.join_val(x, y, ctrl)
            comp = a.complete and b.complete and a.items.keys() == b.items.keys()
            if not comp:
                self.g.sel = None
                key = self.join_val(a.key, b.key, ctrl); val = self.join_val(a.val, b.val, ctrl)
                for k, v in items.items():
                    key = self.join_val(key, self.g.const(k) if not isinstance(k, tuple) else self.g.top("key"), ctrl); val = self.join_val(val, v, ctrl)
                return DictO({}, key, val, False)
            return DictO(items, self.join_val(a.key, b.key, ctrl), self.join_val(a.val, b.val, ctrl), comp)
        if isinstance(a, InstO):
            if a == b: return a
            f = {}
            for k in list(a.fields) + [k for k in b.fields if k not in a.fields]:
                f[k] = self.join_val(a.fields.get(k), b.fields.get(k), ctrl)
            return InstO(a.cls, f, a.tag)
        return a

    def join(self, a, b, by=None):
        if a is None: return b
        if b is None: return a
        if a is b: return a
        if a.dims != b.dims:
            a, b = self.settle(a, b.dims, b), self.settle(b, a.dims, a)
        pc, da, db = pc_common(a.pc, b.pc)
        ctrl = {c.id: c for c, _ in da + db if c is not None}
        ctrl = tuple(ctrl.values())
        # two sides of one decision: the joined values are selected by its condition
        sel = self.g.sel
        if by is not None: self.g.sel = by
        else: self.g.sel = (da[-1][0], da[-1][1]) if da and db and da[-1][0] is not None and da[-1][0] is db[-1][0] and da[-1][1] is not db[-1][1] else None
        cur = self.g.sel
        sides, self.g.sides = self.g.sides, (a, b)
        env = {}
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            env[k] = self.join_val(a.env.get(k), b.env.get(k), ctrl)
        was, self.joining = self.joining, (a, b)
        heap = {}
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y or y is None or x is None: heap[k] = y if x is None else x
            else:
                heap[k] = self.join_obj(k, x, y, ctrl)
                self.g.sel = cur
        self.joining = was
        self.g.sides = sides
        facts = {k: v for k, v in a.facts.items() if b.facts.get(k, NO) == v}
        dims = {k: v for k, v in a.dims.items() if b.dims.get(k) == v}
        mins = {k: min(v, b.mins[k]) for k, v in a.mins.items() if k in b.mins}
        self.g.sel = sel
        return State(env, heap, pc, facts, dims, mins)

    def settle(self, st, keep, other=None):
        """Apply the known extents that are about to be forgotten to the lengths of lists, except where the
        other state has a length that is right here as well."""
        lost = {k for k, v in st.dims.items() if keep.get(k) != v}
        if not lost: return st
        ch = {}
        for oid, o in st.heap.items():
            if isinstance(o, ListO) and o.items is None and o.length is not None and lost & o.length.syms():
                p = other.heap.get(oid) if other is not None else None
                if p == o: continue
                if isinstance(p, ListO) and p.items is None and p.length is not None and st.norm(p.length) == st.norm(o.length):
                    if p.length != o.length: ch[oid] = ListO(None, o.elem, p.length, o.kind, o.src)
                    continue
                ch[oid] = ListO(None, o.elem, st.norm(o.length), o.kind, o.src)
            elif isinstance(o, ArrO) and o.base is None and o.content.op == "stack" and o.content.shape is not None:
                n = o.content
                if other is not None and other.heap.get(oid) == o: continue
                sh = tuple(st.norm(d) if lost & d.syms() else d for d in n.shape)
                if sh != n.shape: ch[oid] = ArrO(self.g.mk("stack", n.args, n.attr, sh, n.dt, n.ival, n.site, n.ctrl, n.meta), None, o.lib)
        if not ch: return st
        st = st.fork()
        st.heap.update(ch)
        return st

    def known_syms(self, st):
        """Extents that exist in a state."""
        r = self.syms_memo.get(id(st))
        if r is not None and r[0] is st: return r[1]
        out = set()
        def node(n):
            if n.shape is not None:
                for d in n.shape: out.update(d.syms())
            if n.ival is not None: out.update(n.ival.syms())
        def val(v):
            if isinstance(v, Node): node(v)
            elif isinstance(v, TupleV):
                for x in v.items: val(x)
            elif isinstance(v, Union):
                for x in v.vals: val(x)
        for v in st.env.values(): val(v)
        for o in st.heap.values():
            if isinstance(o, ListO):
                if o.length is not None: out.update(o.length.syms())
                for x in o.items or (): val(x)
            elif isinstance(o, ArrO):
                if o.base is None: node(o.content)
            elif isinstance(o, InstO):
                for x in o.fields.values(): val(x)
        for k, d in st.dims.items(): out.add(k); out.update(d.syms())
        if len(self.syms_memo) > 500: self.syms_memo.clear()
        self.syms_memo[id(st)] = (st, out)
        return out

    def appended(self, oid, v, st):
        """Which extents of a list's elements are the same for all of them."""
        if isinstance(v, Node): sh = v.shape
        elif isinstance(v, Ref) and isinstance(st.heap.get(v.oid), ArrO): sh = self.content(st, v).shape
        else: sh = None
        if sh is None: return
        fx = self.fixed.setdefault(oid, {})
        for s in {s for d in sh for s in d.syms()}:
            d = st.norm(Dim.sym(s))
            known = [self.known_syms(e) for e in self.loopentry[self.born.get(oid, 0):] if oid in e.heap]
            ok = all(d.syms() <= k for k in known)
            if not ok:
                for k in sorted(st.dims):
                    if all(k in x for x in known) and st.norm(Dim.sym(k)) == d: d, ok = Dim.sym(k), True; break
            old = fx.get(s, d)
            fx[s] = d if ok and old == d else None

    def join_all(self, sts):
        r = None
        for s in sts: r = self.join(r, s)
        return r

    # ------------------------------------------------------------------ exceptions
    def exc_parent(self, c):
        """Chain of class names (builtin or repo) for a class value."""
        out = []
        if isinstance(c, ClassV):
            for x in c.mro():
                if isinstance(x, ClassV): out.append(x.mod.name + "." + x.name)
                else: out += self.exc_parent(x)
            return out
        name = c.name
        out.append(name)
        short = name.split(".", 1)[1] if name.startswith("builtins.") else None
        if short in BUILTIN_EXC:
            for b in getattr(builtins, short).__mro__[1:-1]: out.append("builtins." + b.__name__)
        elif name in EXT_EXC:
            out += self.exc_parent(ExtV("builtins." + EXT_EXC[name]))
        else:
            out.append("builtins.Exception")
        return out

    def exc_match(self, exc, hcls):
        """True / False / None(maybe)."""
        if isinstance(hcls, TupleV):
            r = [self.exc_match(exc, x) for x in hcls.items]
            return True if True in r else (None if None in r else False)
        hn = hcls.mod.name + "." + hcls.name if isinstance(hcls, ClassV) else getattr(hcls, "name", None)
        if hn is None: return None
        if hn.endswith("ElementTree.ParseError"): hn2 = {"xml.etree.ElementTree.ParseError", "defusedxml.ElementTree.ParseError"}
        elif hn.startswith("defusedxml.") and hn.endswith(".DefusedXmlException"): hn2 = {"defusedxml.common.DefusedXmlException"}
        else: hn2 = {hn}
        if hn2 & set(self.exc_parent(exc.cls)): return True
        if exc.cls.name in ("builtins.Exception",) and not exc.explicit:
            return None
        return False

    def throw(self, st, exc):
        if not self.colls: return
        c = self.colls[-1]
        k = exc.key()
        if k in c:
            c[k] = (c[k][0], self.join(c[k][1], st.fork()))
        else:
            c[k] = (exc, st.fork())

    def raised(self, st, exc):
        """An exception starts here (as opposed to travelling through)."""
        if self.throwlog is not None: self.throwlog.append((exc, ("ghost", "clean") in st.facts, st.pc, tuple(self.loopstack), self.ctx))
        self.throw(st, exc)

    def may_raise(self, st, name, why, extents=()):
        e = ExcV(ExtV("builtins." + name) if "." not in name else ExtV(name), self.cur, (), False, why)
        e.extents = frozenset(extents)
        self.raised(st, e)

    def must_raise(self, st, name, why, args=()):
        self.raised(st, ExcV(ExtV("builtins." + name) if "." not in name else ExtV(name), self.cur, args, False, why))
        raise DeadFlow()

    # ------------------------------------------------------------------ modules
    def find_mod(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")): return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"): return p + ".py"
        return None

    def load(self, name, st=None):
        """Import a repository module; may throw (ModuleNotFoundError...). Returns ModV."""
        if name in self.mods:
            m = self.mods[name]
            if m.done == "failed":
                if self.colls and st is not None:
                    for e in m.excs: self.throw(st, e)
                raise DeadFlow()
            return m
        if "." in name: self.load(name.rsplit(".", 1)[0], st)
        if name in self.mods: return self.mods[name]
        path = self.find_mod(name)
        if path is None:
            if st is not None: self.must_raise(st, "ModuleNotFoundError", f"no module {name}")
            raise DeadFlow()
        m = ModV(name, path)
        self.mods[name] = m
        with open(path, encoding="utf-8") as f: src = f.read()
        m.tree = ast.parse(src)
        m.rel = os.path.relpath(path, self.repo)
        ms = self.modstate
        saved_env, saved_cur = ms.env, self.cur
        ms.env = m.env
        m.env["__name__"] = self.const(name)
        fr = Frame(None, m)
        self.frames.append(fr)
        self.colls.append({})
        sctx, self.ctx = self.ctx, self.sub(("mod", name))
        try:
            r = self.block(m.tree.body, ms)
        except DeadFlow:
            r = None
        self.ctx = sctx
        coll = self.colls.pop()
        self.frames.pop()
        self.cur = saved_cur
        if r is not None and r is not ms:
            ms.heap, ms.facts, ms.pc = r.heap, r.facts, None
            m.env.update(r.env)
        ms.env = saved_env
        ms.pc = None
        if r is None:
            m.done = "failed"
            m.excs = [e for e, _ in coll.values()]
            del m
            par = self.mods.get(name)
            par.excs = [e for e, _ in coll.values()]
            if st is not None and self.colls:
                for e, _ in coll.values(): self.throw(st, e)
            raise DeadFlow()
        m.done = True
        m.import_excs = list(coll.values())
        if "." in name:
            p, c = name.rsplit(".", 1)
            self.mods[p].env.setdefault(c, m)
            self.mods[p].env[c] = self.mods[p].env.get(c, m) if not isinstance(self.mods[p].env.get(c), ModV) else m
        return m

    def load_all(self):
        names = []
        base = os.path.join(self.repo, self.package)
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(d, f), self.repo)[:-3].replace(os.sep, ".")
                    names.append(rel[:-9] if rel.endswith(".__init__") else rel)
        names.sort(key=lambda n: (n.count("."), n))
        failed = {}
        for n in names:
            self.colls.append({})
            try:
                self.load(n, self.modstate.fork())
            except DeadFlow:
                failed[n] = [e for e, _ in self.colls[-1].values()]
            self.colls.pop()
        return names, failed

    def get(self, dotted):
        """Resolve 'pkg.mod.Class.method' or raise KeyError."""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            n = ".".join(parts[:i])
            if n in self.mods and self.mods[n].done is True:
                v = self.mods[n]
                for p in parts[i:]:
                    if isinstance(v, ModV): v = v.env[p]
                    elif isinstance(v, ClassV):
                        v = v.lookup(p)[0]
                        if v is None: raise KeyError(dotted)
                    else: raise KeyError(dotted)
                return v
        raise KeyError(dotted)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None: return None
            try:
                st = self.stmt(s, st)
            except DeadFlow:
                return None
        return st

    def tick(self, node):
        self.steps += 1
        if self.steps > self.budget: raise Budget()
        if hasattr(node, "lineno"):
            m = self.frames[-1].mod if self.frames else None
            self.cur = (m.rel if m and hasattr(m, "rel") else "?", node.lineno, node.col_offset)

    def stmt(self, s, st):
        self.tick(s)
        f = getattr(self, "s_" + type(s).__name__, None)
        if f is None:
            self.note("unsupported", type(s).__name__)
            return st
        return f(s, st)

    def s_Expr(self, s, st):
        self.ev(s.value, st); return st

    def s_Pass(self, s, st): return st
    def s_Global(self, s, st):
        fr = self.frames[-1]
        fr.globals = getattr(fr, "globals", set()) | set(s.names)
        return st
    def s_Nonlocal(self, s, st): return st

    def s_Import(self, s, st):
        for a in s.names:
            top = a.name.split(".")[0]
            if top == self.package:
                m = self.load(a.name, st)
                self.bind_name(a.asname or top, m if a.asname else self.mods[top], st)
            else:
                self.ext_import(a.name, st)
                self.bind_name(a.asname or top, ExtV(a.name if a.asname else top), st)
        return st

    def ext_import(self, name, st):
        if name.split(".")[0] in self.absent:
            self.must_raise(st, "ModuleNotFoundError", f"no module named {name}")

    def s_ImportFrom(self, s, st):
        base = s.module or ""
        if s.level:
            pk = self.frames[-1].mod
            parts = pk.name.split(".")
            if not pk.path.endswith("__init__.py"): parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        if base == "__future__": return st
        if base.split(".")[0] == self.package:
            m = self.load(base, st)
            for a in s.names:
                if a.name in m.env: v = m.env[a.name]
                elif self.find_mod(base + "." + a.name): v = self.load(base + "." + a.name, st)
                elif m.done is not True and m.done is not False: v = self.top("circular import")
                else:
                    self.must_raise(st, "ImportError", f"cannot import name {a.name} from {base}")
                self.bind_name(a.asname or a.name, v, st)
        else:
            self.ext_import(base, st)
            for a in s.names: self.bind_name(a.asname or a.name, self.lib.canon_ext(base + "." + a.name), st)
        return st

    def bind_name(self, name, v, st):
        fr = self.frames[-1] if self.frames else None
        if fr is not None and name in getattr(fr, "globals", ()):
            fr.mod.env[name] = v
            self.event("global", st, name=name, mod=fr.mod.name, new=v)
        st.env[name] = v
        if fr is not None and fr.func is None and getattr(fr, "cls", None) is None and st.env is not fr.mod.env and not self.scoped:
            fr.mod.env[name] = v

    def s_FunctionDef(self, s, st):
        f = self.make_func(s, st)
        v = f
        for d in reversed(s.decorator_list):
            dn = ast.unparse(d)
            f.decos.append(dn)
            if dn == "property" or dn.endswith("cached_property"): v = PropV(v)
            elif dn.endswith(".setter"):
                old = st.env.get(dn.split(".")[0])
                v = PropV(old.fget if isinstance(old, PropV) else None, v)
            elif dn == "overload" or dn.endswith(".overload"): pass
            elif dn in ("abstractmethod", "staticmethod", "classmethod"): pass
            else:
                dv = self.ev(d, st)
                if isinstance(dv, (FuncV, BoundV)) and not isinstance(getattr(dv, "func", None), str):
                    v = self.call(dv, [v], {}, st)
                else:
                    v2 = self.lib.decorate(dv, v, st)
                    if v2 is not None: v = v2
        self.bind_name(s.name, v, st)
        return st
    s_AsyncFunctionDef = s_FunctionDef

    def make_func(self, s, st):
        fr = self.frames[-1]
        closure = None
        if fr.func is not None: closure = st.env
        f = FuncV(s, fr.mod, getattr(s, "name", "<lambda>"), getattr(fr, "cls", None), closure)
        a = s.args
        f.defaults = [self.ev(d, st) for d in a.defaults]
        f.kwdefaults = {k.arg: (self.ev(d, st) if d is not None else None) for k, d in zip(a.kwonlyargs, a.kw_defaults)}
        if not isinstance(s, ast.Lambda):
            f.isgen = _has_yield(s)
            for x in (*a.posonlyargs, *a.args, *a.kwonlyargs, a.vararg, a.kwarg):
                if x is not None: self.annotation(x.annotation, st)
            self.annotation(s.returns, st)
        return f

    def annotation(self, e, st):
        """Names of an annotation that is evaluated at definition time."""
        m = self.frames[-1].mod
        if e is None or any(isinstance(x, ast.ImportFrom) and x.module == "__future__" and any(y.name == "annotations" for y in x.names) for x in m.tree.body): return
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load): self.name(x.id, st)

    def s_ClassDef(self, s, st):
        fr = self.frames[-1]
        bases = []
        for b in s.bases:
            if isinstance(b, ast.Subscript): b = b.value
            v = self.ev(b, st)
            if isinstance(v, (ClassV, ExtV)): bases.append(v)
        c = ClassV(s.name, fr.mod, s, bases)
        env, st.env = st.env, dict(st.env)
        outer = st.env
        names0 = dict(outer)
        ocls = getattr(fr, "cls", None)
        fr.cls = c
        r = self.block(s.body, st)
        fr.cls = ocls
        for k, v in st.env.items():
            if k not in names0 or names0[k] is not v: c.attrs[k] = v
        st.env = env
        dec = [ast.unparse(d) for d in s.decorator_list]
        c.is_dataclass = any("dataclass" in d for d in dec)
        self.bind_name(s.name, c, st)
        return st

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else self.const(None)
        self.frames[-1].returns.append((v, st))
        return None

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets: self.assign(t, v, st)
        return st

    def s_AnnAssign(self, s, st):
        if self.frames[-1].func is None: self.annotation(s.annotation, st)
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return st

    def s_AugAssign(self, s, st):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.name(t.id, st)
            rhs = self.ev(s.value, st)
            nv = self.inplace(op, cur, rhs, st)
            self.bind_name(t.id, nv, st)
        elif isinstance(t, ast.Attribute):
            ob = self.ev(t.value, st)
            cur = self.getattr(ob, t.attr, st)
            rhs = self.ev(s.value, st)
            nv = self.inplace(op, cur, rhs, st)
            self.setattr(ob, t.attr, nv, st)
        elif isinstance(t, ast.Subscript):
            ob = self.ev(t.value, st)
            ix = self.ev_index(t.slice, st)
            cur = self.getitem(ob, ix, st)
            rhs = self.ev(s.value, st)
            nv = self.inplace(op, cur, rhs, st)
            self.setitem(ob, ix, nv, st, aug=(op, rhs))
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name): st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                ob = self.ev(t.value, st); ix = self.ev_index(t.slice, st)
                self.lib.delitem(ob, ix, st)
        return st

    def s_Assert(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        if c[0] is False:
            self.must_raise(st, "AssertionError", "assertion")
        if c[0] is None:
            f = st.fork()
            self.refine(s.test, c[1], False, f)
            self.may_raise(f, "AssertionError", "assertion")
            self.refine(s.test, c[1], True, st)
        return st

    def s_Raise(self, s, st):
        if s.exc is None:
            fr = self.frames[-1]
            if fr.caught:
                for e in fr.caught[-1]: self.throw(st, e)
            return None
        site = self.cur
        v = self.ev(s.exc, st)
        if s.cause is not None: self.ev(s.cause, st)
        for x in (v.vals if isinstance(v, Union) else [v]):
            if isinstance(x, (ClassV, ExtV)): x = ExcV(x, site)
            if isinstance(x, ExcV):
                self.raised(st, ExcV(x.cls, site if x.explicit else x.site, x.args, x.explicit, x.why))
            else:
                self.raised(st, ExcV(ExtV("builtins.Exception"), site, (), False, "unknown exception object"))
        return None

    def s_If(self, s, st):
        v = self.ev(s.test, st)
        t, n = self.truth(v, st)
        if t is True:
            self.refine(s.test, n, True, st)
            return self.block(s.body, st)
        if t is False:
            self.refine(s.test, n, False, st)
            return self.block(s.orelse, st)
        a = st.fork(); a.pc = PC(st.pc, n, True)
        b = st; b.pc = PC(st.pc, n, False)
        ra = rb = None
        try:
            self.refine(s.test, n, True, a)
            ra = self.block(s.body, a)
        except DeadFlow: pass
        try:
            self.refine(s.test, n, False, b)
            rb = self.block(s.orelse, b)
        except DeadFlow: pass
        return self.join(ra, rb)

    def s_With(self, s, st):
        exits = []
        for it in s.items:
            v = self.ev(it.context_expr, st)
            ev, ex = self.lib.enter(v, st)
            exits.append(ex)
            if it.optional_vars is not None: self.assign(it.optional_vars, ev, st)
        supp = [e for e in exits if e and e[0] == "suppress"]
        if supp:
            self.colls.append({})
            r = self.block(s.body, st)
            coll = self.colls.pop()
            for e, es in coll.values():
                if any(self.exc_match(e, c) for x in supp for c in x[1]): r = self.join(r, es)
                else: self.throw(es, e)
        else:
            r = self.block(s.body, st)
        for e in reversed(exits):
            if e and r is not None: self.lib.exit(e, r)
        return r
    s_AsyncWith = s_With

    def s_Try(self, s, st):
        fr = self.frames[-1]
        self.colls.append({})
        nret = len(fr.returns)
        r = self.block(s.body, st)
        coll = self.colls.pop()
        outs, pend = [], {}
        def run_fin(x):
            return x
        groups = {}
        for e, es in coll.values():
            done = False
            for i, h in enumerate(s.handlers):
                if h.type is None: m = True
                else:
                    try:
                        self.colls.append({})
                        hv = self.ev(h.type, es.fork())
                        self.colls.pop()
                    except DeadFlow:
                        self.colls.pop(); hv = ExtV("builtins.Exception")
                    m = self.exc_match(e, hv)
                if m is True or m is None:
                    groups.setdefault(i, []).append((e, es))
                    if m is True: done = True; break
            if not done: pend[e.key()] = (e, es)
        hcoll = {}
        if s.finalbody: self.colls.append(hcoll)
        for i, lst in sorted(groups.items()):
            h = s.handlers[i]
            hs = None
            for e, es in lst: hs = self.join(hs, es)
            if hs is None: continue
            hs = hs.fork()
            if h.name: hs.env[h.name] = self.exc_union([e for e, _ in lst])
            fr.caught.append([e for e, _ in lst])
            self.event("caught", hs, excs=[e for e, _ in lst], handler=(self.cur[0], h.lineno))
            o = self.block(h.body, hs)
            fr.caught.pop()
            if o is not None: outs.append(o)
        if r is not None and s.orelse: r = self.block(s.orelse, r)
        if s.finalbody:
            self.colls.pop()
            pend.update(hcoll)
        # finally also runs on return paths
        if s.finalbody:
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            for v, rs in rets:
                o = self.block(s.finalbody, rs)
                if o is not None: fr.returns.append((v, o))
            for e, es in list(pend.values()):
                o = self.block(s.finalbody, es)
                if o is not None: self.throw(o, e)
        else:
            for e, es in pend.values(): self.throw(es, e)
        for o in outs: r = self.join(r, o)
        if s.finalbody and r is not None: r = self.block(s.finalbody, r)
        return r
    s_TryStar = s_Try

    def exc_union(self, es):
        es = list(dict.fromkeys(es))
        return es[0] if len(es) == 1 else Union(es)

    def s_Break(self, s, st):
        self.frames[-1].loops[-1][0].append(st); return None

    def s_Continue(self, s, st):
        self.frames[-1].loops[-1][1].append(st); return None

    def s_Match(self, s, st):
        subj = self.ev(s.subject, st)
        out = None
        cur = st
        for c in s.cases:
            if cur is None: break
            cond = self.match_pat(c.pattern, subj, cur)   # node or True
            if c.guard is not None:
                gv = self.ev(c.guard, cur)
                cond = gv if cond is True else self.g.mk("and", [self.node_of(cond, cur), self.node_of(gv, cur)], dt="b", shape=())
            if cond is True: t, n = True, None
            else: t, n = self.truth(cond, cur)
            if t is True:
                return self.join(out, self.block(c.body, cur))
            if t is False: continue
            a = cur.fork(); a.pc = PC(cur.pc, n, True); a.facts[n.id] = True
            cur = cur.fork(); cur.pc = PC(cur.pc, n, False); cur.facts[n.id] = False
            out = self.join(out, self.block(c.body, a))
        return self.join(out, cur)

    def match_pat(self, p, subj, st):
        if isinstance(p, ast.MatchValue): return self.compare("Eq", subj, self.ev(p.value, st), st)
        if isinstance(p, ast.MatchSingleton): return self.compare("Is", subj, self.const(p.value), st)
        if isinstance(p, ast.MatchAs):
            r = True if p.pattern is None else self.match_pat(p.pattern, subj, st)
            if p.name: st.env[p.name] = subj
            return r
        if isinstance(p, ast.MatchOr):
            ns = [self.match_pat(q, subj, st) for q in p.patterns]
            if True in ns: return True
            return self.boolop_nodes("or", [self.node_of(n, st) for n in ns])
        return self.g.mk("matchpat", [self.node_of(subj, st)], ast.dump(p)[:80], dt="b", shape=())

    # ------------------------------------------------------------------ loops
    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        self.consumers.append("for")
        try: return self.for_stmt(it, s, st)
        finally: self.consumers.pop()

    def for_stmt(self, it, s, st):
        return self.for_each(it, st, lambda v, x: self.assign(s.target, v, x), lambda x: self.block(s.body, x), s.orelse, s)
    s_AsyncFor = s_For

    def for_each(self, it, st, bind, body, orelse, node):
        """Generic iteration; returns the state after the loop."""
        if isinstance(it, Ref) and self.lib.scripted(it, st) is not None: return self.for_lines(it, st, bind, body, orelse, node)
        spec = self.lib.iterate(it, st, node)
        if spec[0] == "exact" and len(spec[1]) <= 130:
            fr = self.frames[-1]
            brks = []
            cur = st
            for k, v in enumerate(spec[1]):
                if cur is None: break
                sctx, self.ctx = self.ctx, self.sub(("unroll", node.lineno, node.col_offset, k))
                fr.loops.append((brks, []))
                try:
                    bind(v, cur)
                    cur = body(cur)
                except DeadFlow: cur = None
                _, conts = fr.loops.pop()
                for c in conts: cur = self.join(cur, c)
                self.ctx = sctx
            if cur is not None and orelse: cur = self.block(orelse, cur)
            for b in brks: cur = self.join(cur, b)
            return cur
        # generic element(s)
        _, elem, trip, idx = spec
        if trip is not None:
            trip = st.norm(trip)
            if trip.is_const() and trip.value() == 0:
                return self.block(orelse, st) if orelse else st
        def do(x):
            bind(elem(x) if callable(elem) else elem, x)
            return body(x)
        exitst, brks = self.fix(st, do, node, trip, None, idx)
        if self.last_back is None and trip is not None and dim_sign(trip, st.mins) == "+": exitst = None    # the first round never completes
        self.forall(it, node, st, exitst, brks)
        if exitst is not None and orelse: exitst = self.block(orelse, exitst)
        for b in brks: exitst = self.join(exitst, b)
        return exitst

    def for_lines(self, it, st, bind, body, orelse, node):
        """Iteration over a scripted file, one line after the other."""
        fr, brks, cur, k = self.frames[-1], [], st, 0
        while cur is not None:
            at = self.lib.scripted(it, cur)
            if at is None: raise Budget("position in a scripted file lost")
            if at >= len(self.lib.file_text): break
            sctx, self.ctx = self.ctx, self.sub(("unroll", node.lineno, node.col_offset, k))
            fr.loops.append((brks, []))
            try:
                bind(self.lib.read_line(it, None, cur, "iter"), cur)
                cur = body(cur)
            except DeadFlow: cur = None
            _, conts = fr.loops.pop()
            for c in conts: cur = self.join(cur, c)
            self.ctx = sctx
            k += 1
        if cur is not None and orelse: cur = self.block(orelse, cur)
        for b in brks: cur = self.join(cur, b)
        return cur

    def played(self, st, do, exits, node):
        """Exact iterations of a while loop whose test is decided every time: (True, state at the end, break states) or None."""
        fr, brks, cur, k = self.frames[-1], [], st.fork(), 0
        nret = len(fr.returns)
        while cur is not None:
            if k >= 200:
                del fr.returns[nret:]
                return None
            exits.clear()
            sctx, self.ctx = self.ctx, self.sub(("unroll", node.lineno, node.col_offset, k))
            fr.loops.append((brks, []))
            try: cur = do(cur)
            except DeadFlow: cur = None
            _, conts = fr.loops.pop()
            for c in conts: cur = self.join(cur, c)
            self.ctx = sctx
            k += 1
            if exits and cur is not None:
                del fr.returns[nret:]
                return None          # the test was not decided
        return brks

    def forall(self, it, node, st, exitst, brks):
        """Every element passed the same membership test: the elements of the list are members."""
        back = self.last_back
        t = getattr(node, "target", None)
        if back is None or brks or exitst is None or not isinstance(t, ast.Name) or not isinstance(it, Ref): return
        o, h = st.heap.get(it.oid), exitst.heap.get(it.oid)
        if isinstance(o, ListO) and h is o and o.items is None and back.heap.get(it.oid) is o:
            # every element passed the same test of its extents
            x = st.heap.get(o.elem.oid) if isinstance(o.elem, Ref) else None
            own = x.length.syms() if isinstance(x, ListO) and x.length is not None else {s for d in (self.content(st, o.elem).shape or ()) for s in d.syms()} if isinstance(x, ArrO) else set()
            for s in own:
                d = back.dims.get(s)
                if d is not None and s.startswith("~") and exitst.dims.get(s) is None and s not in st.dims and d.is_const(): exitst.dims[s] = d
        v = back.env.get(t.id)
        if isinstance(o, ListO) and h is o and o.items is None and isinstance(o.elem, Node) and isinstance(v, Node):
            k = self.lib.known_member(v, back)
            if k is not None and not (o.elem.meta or {}).get("member"):
                exitst.heap[it.oid] = ListO(None, self.lib.as_member(o.elem, k), o.length, o.kind, o.src)

    def s_While(self, s, st):
        exits = []
        def do(x):
            v = self.ev(s.test, x)
            t, n = self.truth(v, x)
            if t is not True:
                e = x.fork()
                if n is not None:
                    try: self.refine(s.test, n, False, e)
                    except DeadFlow: e = None
                if e is not None: exits.append(e)
                if t is False: return None
            if n is not None: self.refine(s.test, n, True, x)
            if t is None: x.pc = PC(x.pc, n, True)
            return self.block(s.body, x)
        # a small number of exact iterations when the condition is decided
        def run():
            exits.clear()
        brks = None
        if self.lib.file_text is not None: brks = self.played(st, do, exits, s)
        if brks is None:
            c = self.counted(s, st)
            if c is not None: return c[0]
            exits.clear(); ex, brks = self.fix(st, do, s, None, run)
        r = None
        for e in exits: 
            e.pc = st.pc
            r = self.join(r, e)
        if r is not None and s.orelse: r = self.block(s.orelse, r)
        for b in brks: r = self.join(r, b)
        return r

    def counted(self, s, st):
        """while len(x) < n / while i < n, one step per round: (state after the loop,), or None when it is not of that form."""
        t = s.test
        if not isinstance(t, ast.Compare) or len(t.ops) != 1 or not isinstance(t.ops[0], (ast.Lt, ast.Gt, ast.NotEq)): return None
        a, b = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt): a, b = b, a
        stored = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "len" and len(a.args) == 1 and not a.keywords: name, a = "len", a.args[0]
        else: name = "var"
        if not isinstance(a, ast.Name) or (name == "len") == (a.id in stored): return None
        if any(isinstance(n, (ast.Call, ast.Attribute, ast.Subscript)) for n in ast.walk(b)) and not (isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "len"): return None
        if any(isinstance(n, ast.Name) and n.id in stored for n in ast.walk(b)): return None
        v, top = self.ev(a, st), self.ev(b, st)
        if not isinstance(top, Node) or top.ival is None or top.shape not in ((), None): return None
        if name == "len":
            o = st.heap.get(v.oid) if isinstance(v, Ref) else None
            if not isinstance(o, ListO) or o.kind != "list": return None
            start = Dim.const(len(o.items)) if o.items is not None else o.length
        else: start = v.ival if isinstance(v, Node) and v.shape in ((), None) else None
        if start is None: return None
        trip = st.norm(top.ival - start)
        if dim_sign(trip, st.mins) not in ("+", ">=", "0"): return None
        if trip.is_const() and trip.value() == 0: return None
        fr = self.frames[-1]
        idx = self.lib.idx_leaf(s, trip)
        nev, nret, nyl = len(self.events), len(fr.returns), (len(fr.yields) if fr.yields is not None else 0)
        coll = dict(self.colls[-1])
        now = self.g.dim(start + idx.ival)
        bad = []
        def do(x):
            if name == "var": x.env[a.id] = now
            elif x.env.get(a.id) != v: bad.append(1)
            w = self.ev(b, x)
            if not isinstance(w, Node) or w.ival != top.ival: bad.append(1)
            return self.block(s.body, x)
        save = st.fork()
        ex, brks = self.fix(st.fork(), do, s, trip, None, idx)
        back = self.last_back
        if back is not None and not bad:
            if name == "len":
                o = back.heap.get(v.oid)
                n = self.last_lens.get(v.oid)
                if not isinstance(o, ListO) or n is None or n[0] != "idx" or n[1] != start or n[2] != D1: bad.append(1)
            else:
                w = back.env.get(a.id)
                if not isinstance(w, Node) or w.ival is None or back.norm(w.ival) != back.norm(start + idx.ival + D1): bad.append(1)
                elif ex is not None: ex.env[a.id] = self.g.dim(start + trip)
        elif back is None: pass
        if bad:
            del self.events[nev:]
            del fr.returns[nret:]
            if fr.yields is not None: del fr.yields[nyl:]
            self.colls[-1].clear(); self.colls[-1].update(coll)
            return None
        if back is None and dim_sign(trip, st.mins) == "+": ex = None
        r = ex
        if r is not None and s.orelse: r = self.block(s.orelse, r)
        for y in brks: r = self.join(r, y)
        return (r,)

    def fix(self, st, do, node, trip, on_pass=None, idx=None):
        """Fixpoint of a loop body. Returns (state at loop head after the loop, break states)."""
        fr = self.frames[-1]
        key0 = (self.ctx, node.lineno, node.col_offset)
        entry = st
        head = st.fork()
        lps, lens = {}, {}
        back = None
        brks = []
        saved_ctx = self.ctx
        for it in range(9):
            nev = len(self.events)
            nret, nyl = len(fr.returns), (len(fr.yields) if fr.yields is not None else 0)
            self.colls.append({})
            brks = []
            fr.loops.append((brks, []))
            if on_pass: on_pass()
            x = head.fork()
            self.ctx = self.sub(("loop", node.lineno, node.col_offset))
            depth = len(self.loopstack)
            self.loopstack.append(idx if idx is not None else self.lib.idx_leaf(node, None))
            self.loopentry.append(entry)
            try: out = do(x)
            except DeadFlow: out = None
            finally: self.loopentry.pop()
            del self.loopstack[depth:]
            self.ctx = saved_ctx
            _, conts = fr.loops.pop()
            for c in conts: out = self.join(out, c)
            coll = self.colls.pop()
            back = out
            if out is None:
                changed = False
            else:
                changed = self.widen(key0, entry, head, out, lps, lens, it, idx)
            if not changed or it == 8:
                if changed: self.note("nofix", str(key0))
                for e, es in coll.values(): self.throw(es, e)
                break
            del self.events[nev:]
            del fr.returns[nret:]
            if fr.yields is not None: del fr.yields[nyl:]
        # patch loop phis
        for k, lp in lps.items():
            init = lp.meta["init"]
            b = lp.meta.get("back")
            lp.args = (init, b) if b is not None else (init,)
        # induction on list lengths
        vague = isinstance(node, ast.While) and not isinstance(node.test, ast.Constant)
        for oid, (kind, base, d) in lens.items():
            if vague and kind != "idx": self.lossy |= new_sym(("L", kind, key0, oid), 0).syms()
            if vague and trip is None: self.lossy |= new_sym(("trips", key0), 0).syms()
            h = head.heap.get(oid)
            if kind == "idx" and isinstance(h, ListO) and h.items is None:
                if trip is not None: nl = base + d * trip
                else: nl = base + d * new_sym(("trips", key0), 0)
                el, src = h.elem, idx if base == D0 and d == D1 else None
                how = self.order.get(oid, set())
                if src is not None and how & {"front", "insert", "sort", "reverse"}:
                    b = self.lib.backwards(el, idx, nl, head) if how == {"front"} and trip is not None else None
                    if b is not None: el = b
                    else: src = None
                head.heap[oid] = ListO(None, el, nl, h.kind, src)
        self.last_back = back
        self.last_lens = lens
        head.pc = st.pc
        for b in brks: b.pc = st.pc
        return head, brks

    def widen(self, key0, entry, head, out, lps, lens, it, idx=None):
        changed = False
        out = self.settle(out, head.dims, head)
        ns = self

        def val(k, e, h, b):
            nonlocal changed
            if h is None:
                if b is not None: changed = True
                return b
            if b is None or h is b or h == b:
                if isinstance(h, Node) and h.op == "loopphi" and k in lps and lps[k] is h: h.meta.setdefault("back", h) if h is not b else None
                if isinstance(h, Node) and k in lps and lps[k] is h: h.meta["back"] = b if b is not None else h
                return h
            if isinstance(h, Node) and isinstance(b, Node) and (h.dt == "N") == (b.dt == "N"):
                lp = lps.get(k)
                if lp is not None and h is lp:
                    shape = _jsh(lp.shape, b.shape); dt = lp.dt if lp.dt == b.dt else None
                    mem = lp.meta.get("member")
                    if shape == lp.shape and dt == lp.dt and (mem is None or (b.meta or {}).get("member") == mem):
                        lp.meta["back"] = b
                        return lp
                    if it > 5: shape = None
                    n = ns.g.new("loopphi", (), (key0, str(k), it), NO, shape, dt, None, {"init": lp.meta["init"], "back": b})
                    lps[k] = n; changed = True
                    return n
                if h.op == "const" and b.op == "const" and False: pass
                shape = _jsh(h.shape, b.shape)
                dt = h.dt if h.dt == b.dt else (("n" if {h.dt, b.dt} <= {"i", "f", "n"} else None))
                iv = new_sym(("lv", key0, str(k)), 0) if dt == "i" and shape == () and h.ival is not None and dim_sign(h.ival) in ("+", "0", ">=") else None
                n = ns.g.new("loopphi", (), (key0, str(k), it), NO, shape, dt, iv, {"init": h, "back": b})
                mem = (h.meta or {}).get("member")
                if mem is not None and (b.meta or {}).get("member") == mem: n.meta["member"] = mem
                lps[k] = n; changed = True
                return n
            if isinstance(h, TupleV) and isinstance(b, TupleV) and len(h.items) == len(b.items):
                return TupleV([val((k, i), None, x, y) for i, (x, y) in enumerate(zip(h.items, b.items))])
            j = ns.join_val(h, b)
            if j != h: changed = True
            if it > 6 and j != h: return ns.g.top("loop value")
            return j

        for k in list(out.env):
            head.env[k] = val(("v", k), entry.env.get(k), head.env.get(k), out.env[k])
        live = None
        for oid in list(out.heap):
            h, b = head.heap.get(oid), out.heap[oid]
            if h is b: 
                continue
            if h is None:
                if live is None: live = self.living(out, head)
                if oid not in live: continue
                head.heap[oid] = b   # allocated in the loop: latest instance
                continue
            if type(h) is not type(b): continue
            if isinstance(h, ArrO):
                if h.base is None and b.base is None:
                    c = val(("a", oid), None, h.content, b.content)
                    if c is not h.content: head.heap[oid] = ArrO(c, None, h.lib)
                continue
            if isinstance(h, ListO):
                if h == b: continue
                if h.items is not None and b.items is not None and len(h.items) == len(b.items):
                    items = [val(("li", oid, i), None, x, y) for i, (x, y) in enumerate(zip(h.items, b.items))]
                    head.heap[oid] = ListO(items, kind=h.kind); continue
                e = None
                for o in (h, b):
                    for x in (o.items if o.items is not None else ([o.elem] if o.elem is not None else [])): e = ns.join_val(e, x)
                olde = h.elem if h.items is None else None
                if h.items is None and olde is not None and isinstance(olde, Node) and isinstance(e, Node) and e is not olde:
                    e = val(("le", oid), None, olde, e)
                ln = ns.widen_len(key0, oid, h, b, lens, idx, out)
                new = ListO(None, e, ln, h.kind)
                if new != h: changed = True
                head.heap[oid] = new
                continue
            if isinstance(h, DictO):
                j = ns.join_obj(oid, h, b, ())
                if j != h: changed = True; head.heap[oid] = j
                continue
            if isinstance(h, InstO):
                f = dict(h.fields)
                for k in list(b.fields):
                    f[k] = val(("f", oid, k), None, h.fields.get(k), b.fields[k])
                head.heap[oid] = InstO(h.cls, f, h.tag)
        # facts and dims only survive if both agree
        for d, o in ((head.facts, out.facts), (head.dims, out.dims), (head.mins, out.mins)):
            for k in list(d):
                if o.get(k, NO) != d[k]: del d[k]; changed = True
        return changed

    def living(self, out, head):
        """What is still reachable after a round of a loop."""
        from .framework import reachable
        roots = list(out.env.values()) + [Ref(k) for k, o in head.heap.items() if out.heap.get(k) is not o]
        for f in self.frames: roots += [y[0] for y in f.yields or ()]
        keep = set()
        for v in roots: keep |= set(reachable(out, v))
        return keep

    def widen_len(self, key0, oid, h, b, lens, idx, out):
        """Length of a list at the loop head: base + d*iteration, base + something, or anything."""
        if h.length is None or b.length is None: return None
        d = out.norm(b.length) - h.length
        if oid not in lens:
            if h.length == b.length: return h.length
            if d.is_const() and idx is not None and idx.ival is not None and d.value() > 0: lens[oid] = ("idx", h.length, d)
            elif dim_sign(d, out.mins) in ("+", ">=", "0"): lens[oid] = ("grow", h.length, None)
            else: lens[oid] = ("any", None, None)
        else:
            kind, base, d0 = lens[oid]
            if kind == "idx" and d != d0:
                lens[oid] = ("grow", base, None) if dim_sign(d, out.mins) in ("+", ">=", "0") else ("any", None, None)
            elif kind == "grow" and dim_sign(d, out.mins) not in ("+", ">=", "0"): lens[oid] = ("any", None, None)
        kind, base, d0 = lens[oid]
        if kind == "idx": return base + d0 * idx.ival
        s = new_sym(("L", kind, key0, oid), 0)
        return base + s if kind == "grow" else s

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, st), t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            ob = self.ev(t.value, st)
            ix = self.ev_index(t.slice, st)
            self.setitem(ob, ix, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.lib.unpack_star(v, n, star[0], st)
            else:
                items = self.lib.unpack(v, n, st)
            for e, x in zip(t.elts, items): self.assign(e.value if isinstance(e, ast.Starred) else e, x, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def setattr(self, ob, name, v, st):
        for o in (ob.vals if isinstance(ob, Union) else [ob]):
            if isinstance(o, Ref):
                h = st.heap.get(o.oid)
                if isinstance(h, InstO):
                    if isinstance(h.cls, ClassV):
                        a, c = h.cls.lookup(name)
                        if isinstance(a, PropV):
                            if a.fset is not None:
                                self.call_func(a.fset, [o, v], {}, st); continue
                            self.must_raise(st, "AttributeError", f"no setter for {name}")
                    f = dict(h.fields); old = f.get(name)
                    f[name] = v if not isinstance(ob, Union) else self.join_val(old, v)
                    st.heap[o.oid] = InstO(h.cls, f, h.tag)
                    self.event("setfield", st, oid=o.oid, field=name, old=old, new=v, cls=h.cls, origin=self.origin.get(o.oid))
                elif isinstance(h, ArrO):
                    self.mutated(st, o, "attribute " + name)
            elif isinstance(o, ModV):
                o.env[name] = v
                self.event("global", st, name=name, mod=o.name, new=v)
            elif isinstance(o, ExtV):
                self.event("extset", st, name=o.name + "." + name)
            elif isinstance(o, ClassV):
                o.attrs[name] = v
                self.event("global", st, name=name, mod=o.name, new=v)

    def setitem(self, ob, ix, v, st, aug=None):
        if isinstance(ob, Union):
            for o in ob.vals: self.setitem(o, ix, v, st, aug)
            return
        self.lib.setitem(ob, ix, v, st, aug)

    def getitem(self, ob, ix, st):
        if isinstance(ob, Union):
            return self.over(ob, lambda o, y: self.getitem(o, ix, y), st)
        return self.lib.getitem(ob, ix, st)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        self.tick(e)
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            self.note("unsupported", type(e).__name__)
            return self.g.top("expr " + type(e).__name__)
        cur = self.cur
        v = f(e, st)
        self.cur = cur
        return v

    def ev_index(self, e, st):
        if isinstance(e, ast.Slice): return self.e_Slice(e, st)
        if isinstance(e, ast.Tuple): return TupleV([self.ev_index(x, st) for x in e.elts])
        return self.ev(e, st)

    def e_Slice(self, e, st):
        return SliceV(*[self.ev(x, st) if x is not None else self.const(None) for x in (e.lower, e.upper, e.step)])

    def e_Constant(self, e, st):
        if e.value is Ellipsis: return ExtV("builtins.Ellipsis")
        return self.const(e.value)

    def name(self, n, st):
        if n in st.env: return st.env[n]
        fr = self.frames[-1]
        c = fr.func.closure if fr.func is not None else None
        if c is not None and n in c: return c[n]
        if n in fr.mod.env: return fr.mod.env[n]
        if hasattr(builtins, n) or n in ("__file__", "__class__"):
            if n == "__class__" and fr.func is not None and fr.func.cls: return fr.func.cls
            if n == "NotImplemented": return self.const(None)
            return ExtV("builtins." + n)
        self.must_raise(st, "NameError", f"name '{n}' is not defined")

    def e_Name(self, e, st): return self.name(e.id, st)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st); self.bind_name(e.target.id, v, st); return v

    def e_Tuple(self, e, st): return TupleV(self.items(e.elts, st))

    def items(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                sp = self.lib.iterate(v, st, x)
                if sp[0] == "exact": out += list(sp[1])
                else: out.append(("*", sp))
            else: out.append(self.ev(x, st))
        if any(isinstance(x, tuple) for x in out):
            self.note("star-unpack")
            out = [self.g.top("star") if isinstance(x, tuple) else x for x in out]
        return out

    def e_List(self, e, st):
        site = self.cur
        if any(isinstance(x, ast.Starred) for x in e.elts):
            el, ln, exact, items = None, D0, True, []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    sp = self.lib.iterate(self.ev(x.value, st), st, x)
                    if sp[0] == "exact": items += list(sp[1]); ln = ln + Dim.const(len(sp[1]))
                    else:
                        exact = False; items.append(sp[1](st) if callable(sp[1]) else sp[1])
                        ln = ln + sp[2] if ln is not None and sp[2] is not None else None
                else:
                    items.append(self.ev(x, st)); ln = ln + D1 if ln is not None else None
            self.cur = site
            if exact: return self.new_list(st, items)
            for x in items: el = self.join_val(el, x)
            return self.new_list(st, None, el, ln)
        it = [self.ev(x, st) for x in e.elts]
        self.cur = site
        return self.new_list(st, it)

    def e_Set(self, e, st):
        it = self.items(e.elts, st)
        return self.new_list(st, it, kind="set")

    def e_Dict(self, e, st):
        d = DictO()
        site = self.cur
        for k, v in zip(e.keys, e.values):
            if k is None:
                ov = self.ev(v, st); o = self.obj(ov, st)
                if isinstance(o, DictO):
                    d.items.update(o.items); d.complete &= o.complete
                    d.key, d.val = self.join_val(d.key, o.key), self.join_val(d.val, o.val)
                continue
            kv = self.ev(k, st); vv = self.ev(v, st)
            kk = self.lib.ckey(kv)
            if kk is not NO: d.items[kk] = vv
            else:
                d.key, d.val, d.complete = self.join_val(d.key, kv), self.join_val(d.val, vv), False
        self.cur = site
        return self.alloc(st, d, "d")

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(self.const(v.value))
            else:
                x = self.ev(v.value, st)
                spec = ""
                if v.format_spec is not None:
                    s = self.ev(v.format_spec, st)
                    spec = s.const if s.const is not NO else None
                parts.append(self.lib.fmt(x, spec, v.conversion, st))
        return self.lib.concat_str(parts)

    def e_FormattedValue(self, e, st): return self.lib.fmt(self.ev(e.value, st), "", e.conversion, st)

    def e_Lambda(self, e, st):
        s = ast.copy_location(ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(e.body), e)], decorator_list=[]), e)
        return self.make_func(s, st)

    def e_IfExp(self, e, st):
        t, n = self.truth(self.ev(e.test, st), st)
        if t is True:
            self.refine(e.test, n, True, st); return self.ev(e.body, st)
        if t is False:
            self.refine(e.test, n, False, st); return self.ev(e.orelse, st)
        return self.split(st, n, lambda x: (self.refine(e.test, n, True, x), self.ev(e.body, x))[1],
                          lambda x: (self.refine(e.test, n, False, x), self.ev(e.orelse, x))[1])

    def split(self, st, n, fa, fb):
        a = st.fork(); a.pc = PC(st.pc, n, True)
        b = st.fork(); b.pc = PC(st.pc, n, False)
        va = vb = None
        try: va = fa(a)
        except DeadFlow: a = None
        try: vb = fb(b)
        except DeadFlow: b = None
        if a is None and b is None: raise DeadFlow()
        if a is not None: a.env["%v"] = va
        if b is not None: b.env["%v"] = vb
        j = self.join(a, b)
        v = j.env.pop("%v")
        self.become(st, j)
        return v

    def become(self, st, j):
        st.env, st.heap, st.pc, st.facts, st.dims, st.mins = j.env, j.heap, j.pc, j.facts, j.dims, j.mins

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], st)
        return self.boolrest(e, 0, v, isand, st)

    def boolrest(self, e, i, v, isand, st):
        if i == len(e.values) - 1: return v
        t, n = self.truth(v, st)
        if t is (not isand): 
            return v
        nxt = e.values[i + 1]
        if t is isand:
            if n is not None: self.refine(e.values[i], n, isand, st)
            return self.boolrest(e, i + 1, self.ev(nxt, st), isand, st)
        def go(x):
            self.refine(e.values[i], n, isand, x)
            return self.boolrest(e, i + 1, self.ev(nxt, x), isand, x)
        a = st.fork(); a.pc = PC(st.pc, n, isand)
        try: w = go(a)
        except DeadFlow:
            self.refine(e.values[i], n, not isand, st)
            return v
        b = st.fork(); b.pc = PC(st.pc, n, not isand)
        j = self.join(a, b)
        self.become(st, j)
        if isinstance(v, Node) and isinstance(w, Node) and v.dt == "b" and w.dt == "b":
            return self.boolop_nodes("and" if isand else "or", [v, w])
        return self.join_val(v, w)

    def boolop_nodes(self, op, ns):
        return self.g.mk(op, ns, None, (), "b")

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            t, n = self.truth(v, st)
            if t is not None: return self.const(not t)
            return self.not_(n)
        return self.lib.unop(type(e.op).__name__, v, st)

    def not_(self, n):
        if n.op == "not": return n.args[0]
        return self.g.mk("not", [n], None, (), "b")

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st); b = self.ev(e.right, st)
        return self.binop(type(e.op).__name__, a, b, st)

    def binop(self, op, a, b, st):
        if isinstance(a, Union) or isinstance(b, Union):
            if isinstance(a, Union): return self.over(a, lambda x, y: self.binop(op, x, b, y), st)
            return self.over(b, lambda x, y: self.binop(op, a, x, y), st)
        return self.lib.binop(op, a, b, st)

    def inplace(self, op, a, b, st):
        if isinstance(a, Union):
            return self.over(a, lambda x, y: self.inplace(op, x, b, y), st)
        return self.lib.inplace(op, a, b, st)

    def e_Compare(self, e, st):
        l = self.ev(e.left, st)
        out = []
        for o, r in zip(e.ops, e.comparators):
            rv = self.ev(r, st)
            out.append(self.compare(type(o).__name__, l, rv, st))
            l = rv
        if len(out) == 1: return out[0]
        ts = [self.truth(x, st) for x in out]
        if any(t is False for t, _ in ts): return self.const(False)
        ns = [n for t, n in ts if t is None]
        if not ns: return self.const(True)
        return ns[0] if len(ns) == 1 else self.boolop_nodes("and", ns)

    def extents(self, v, st, deep=True):
        """Extents that a value consists of: a number of elements, a shape, or the length of a list."""
        if isinstance(v, Node):
            return v.ival.syms() if v.ival is not None else set().union(*(self.extents(x, st) for x in v.args)) if v.op == "phi" else set()
        if isinstance(v, TupleV): return set().union(*(self.extents(x, st) for x in v.items))
        if isinstance(v, Union): return set().union(*(self.extents(x, st) for x in v.vals))
        o = self.obj(v, st)
        if isinstance(o, ListO) and o.kind == "list" and o.length is not None: return o.length.syms()
        return set()

    def compare(self, op, a, b, st):
        x = self.extents(a, st)
        if x:
            y = self.extents(b, st)
            if y: self.tests.setdefault(self.cur, set()).add((frozenset(x), frozenset(y)))
        if isinstance(a, Union) or isinstance(b, Union):
            rs = []
            for x in (sorted(a.vals, key=repr) if isinstance(a, Union) else [a]):
                for y in (sorted(b.vals, key=repr) if isinstance(b, Union) else [b]):
                    try: rs.append(self.lib.compare(op, x, y, st))
                    except DeadFlow: pass
            if not rs: raise DeadFlow()
            r = rs[0]
            for x in rs[1:]: r = self.join_val(r, x)
            if isinstance(r, Node) and r.op == "phi" :
                return self.g.mk("cmpu:" + op, [self.node_of(a, st), self.node_of(b, st)], None, (), "b")
            return r
        return self.lib.compare(op, a, b, st)

    def truth(self, v, st):
        """(True/False/None, node)."""
        if isinstance(v, Union):
            ts = {self.truth(x, st)[0] for x in v.vals}
            n = self.node_of(v, st)
            if len(ts) == 1 and None not in ts: return ts.pop(), n
            n = self.g.mk("bool", [n], None, (), "b")
            f = st.facts.get(n.id)
            return (f, n)
        if isinstance(v, Node):
            t = self.truth_node(v, st)
            n = v
            return t, n
        if isinstance(v, TupleV): return bool(v.items), None
        if isinstance(v, Ref):
            o = st.heap.get(v.oid)
            if isinstance(o, ListO):
                if o.length is not None:
                    s = dim_sign(st.norm(o.length), st.mins)
                    if s == "+": return True, self.const(True)
                    if s == "0": return False, self.const(False)
                    c = self.compare("Gt", self.g.dim(st.norm(o.length)), self.const(0), st)
                    return self.truth(c, st)
                n = self.g.mk("bool", [self.node_of(v, st)], None, (), "b")
                return st.facts.get(n.id), n
            if isinstance(o, DictO):
                if o.complete: return bool(o.items), None
                n = self.g.mk("bool", [self.node_of(v, st)], None, (), "b")
                return st.facts.get(n.id), n
            if isinstance(o, ArrO):
                n = self.content(st, v)
                if n.shape is not None and any(dim_sign(d - D1) == "+" for d in n.shape):
                    self.must_raise(st, "ValueError", "truth value of an array")
                return st.facts.get(n.id), n
            if isinstance(o, InstO):
                if isinstance(o.cls, ClassV) and (o.cls.lookup("__len__")[0] or o.cls.lookup("__bool__")[0]):
                    n = self.g.mk("bool", [self.node_of(v, st)], None, (), "b")
                    return None, n
                return True, None
        return True, None

    def truth_node(self, n, st):
        if n.const is not NO:
            try: return bool(n.const)
            except Exception: return None
        f = st.facts.get(n.id)
        if f is not None: return f
        if n.op == "not":
            t = self.truth_node(n.args[0], st)
            return None if t is None else not t
        if n.op in ("and", "or"):
            ts = [self.truth_node(a, st) for a in n.args]
            if n.op == "and":
                if False in ts: return False
                if all(t is True for t in ts): return True
            else:
                if True in ts: return True
                if all(t is False for t in ts): return False
        if n.op == "phi":
            ts = {self.truth_node(a, st) for a in n.args}
            if len(ts) == 1 and None not in ts: return ts.pop()
        if n.ival is not None and n.shape == ():
            s = dim_sign(st.norm(n.ival), st.mins)
            if s in ("+", "-"): return True
            if s == "0": return False
        if n.op.startswith("cmp:"): 
            t = self.lib.decide_cmp(n, st)
            if t is None: t = self.ranges.decide(n)
            if t is not None: return t
        if n.op in ("any", "all", "anyof", "allof") and len(n.args) == 1 and n.args[0].op in ("cmp:<", "cmp:<=", "or", "and", "not"):
            t = self.ranges.elements(n.args[0])
            if n.op.startswith("any") and t is False: return False
            if n.op.startswith("all") and t is True: return True
        if self.assume is not None:
            return self.assume(n, st)
        return None

    # refinement by a test outcome
    def refine(self, test, n, pol, st):
        if isinstance(n, Node): self.refine_node(n, pol, st)
        if test is None: return
        # narrow unions held by simple names / attributes
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, None, not pol, st)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == pol:
                for v in test.values: self.refine(v, None, pol, st)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) \
                and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            keep_none = isinstance(test.ops[0], (ast.Is, ast.Eq)) == pol
            self.narrow(test.left, st, lambda v: (isinstance(v, Node) and v.dt == "N") == keep_none)
        elif isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == "isinstance" and len(test.args) == 2:
            try:
                self.colls.append({})
                cls = self.ev(test.args[1], st.fork())
                self.colls.pop()
            except DeadFlow:
                self.colls.pop(); return
            def keep(v):
                r = self.lib.isinstance_(v, cls, st)
                return r is None or r == pol
            self.narrow(test.args[0], st, keep)
        elif isinstance(test, (ast.Name, ast.Attribute)):
            self.narrow(test, st, lambda v: self.truth(v, st)[0] in (pol, None))
            if not pol: self.none_left(test, st)
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Call) and isinstance(test.left.func, ast.Name) and test.left.func.id == "len" \
                and len(test.left.args) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value == 0 \
                and isinstance(test.ops[0], ast.Eq if pol else (ast.Gt, ast.NotEq)):
            self.none_left(test.left.args[0], st)
        elif isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id in ("any", "all") and pol == (test.func.id == "all") and len(test.args) == 1 \
                and isinstance(test.args[0], (ast.GeneratorExp, ast.ListComp)) and len(test.args[0].generators) == 1:
            g = test.args[0].generators[0]
            if not g.ifs: self.each(g.iter, g.target, [test.args[0].elt], pol, st)

    def none_left(self, e, st):
        """A list made of the elements that pass a test is empty."""
        v = st.env.get(e.id) if isinstance(e, ast.Name) else None
        c = self.picked.get(v.oid) if isinstance(v, Ref) else None
        if c is not None and len(c.generators[0].ifs) == 1: self.each(c.generators[0].iter, c.generators[0].target, c.generators[0].ifs, False, st)

    def each(self, it, target, tests, pol, st):
        """Every element of a list has the same outcome of a test: what follows for the elements."""
        if not isinstance(it, ast.Name) or not isinstance(target, ast.Name): return
        v = st.env.get(it.id)
        o = st.heap.get(v.oid) if isinstance(v, Ref) else None
        if not isinstance(o, ListO) or o.items is not None or o.elem is None: return
        nev, old = len(self.events), st.env.get(target.id, NO)
        self.colls.append({})
        try:
            st.env[target.id] = o.elem
            for t in tests:
                n = self.node_of(self.ev(t, st), st)
                self.refine(t, n, pol, st)
            k = self.lib.known_member(o.elem, st) if isinstance(o.elem, Node) else None
            new = st.env.get(target.id)
            if k is not None: new = self.lib.as_member(o.elem, k)
            if new is not o.elem: st.heap[v.oid] = ListO(None, new, o.length, o.kind, o.src)
        except DeadFlow: pass
        finally:
            self.colls.pop()
            del self.events[nev:]
            if old is NO: st.env.pop(target.id, None)
            else: st.env[target.id] = old

    def narrow(self, e, st, keep):
        if isinstance(e, ast.NamedExpr): e = e.target
        if isinstance(e, ast.Name):
            v = st.env.get(e.id)
            if isinstance(v, Union):
                vs = [x for x in v.vals if keep(x)]
                if not vs: raise DeadFlow()
                st.env[e.id] = vs[0] if len(vs) == 1 else Union(vs)
        elif isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name): o = st.env.get(e.value.id)
            elif isinstance(e.value, ast.Subscript) and isinstance(e.value.value, ast.Name) and isinstance(e.value.slice, ast.Constant):
                nev = len(self.events)
                self.colls.append({})
                try: o = self.ev(e.value, st)
                except DeadFlow: return
                finally:
                    self.colls.pop()
                    del self.events[nev:]
            else: return
            h = self.obj(o, st)
            if isinstance(h, InstO) and isinstance(h.fields.get(e.attr), Union):
                vs = [x for x in h.fields[e.attr].vals if keep(x)]
                if not vs: raise DeadFlow()
                f = dict(h.fields); f[e.attr] = vs[0] if len(vs) == 1 else Union(vs)
                st.heap[o.oid] = InstO(h.cls, f, h.tag)

    def refine_node(self, n, pol, st):
        if n.const is not NO: return
        st.facts[n.id] = pol
        if n.op == "not": return self.refine_node(n.args[0], not pol, st)
        if n.op == "and" and pol or n.op == "or" and not pol:
            for a in n.args: self.refine_node(a, pol, st)
            return
        if n.op == "cmp:==" or n.op == "cmp:<":
            a, b = n.args
            if a.ival is not None and b.ival is not None and a.shape == () and b.shape == ():
                x, y = st.norm(a.ival), st.norm(b.ival)
                d = x - y
                if n.op == "cmp:==":
                    if pol: self.equate(d, st)
                    else:
                        # x != 0 with x>=0  -> x>=1
                        self.exclude(d, st)
                else:
                    # a<b : b-a >= 1 ; not: a-b >= 0
                    self.atleast((y - x - D1) if pol else (x - y), st)

    def equate(self, d, st):
        """Assume d == 0."""
        for m, c in d.t:
            if len(m) == 1 and c in (1, -1):
                s = m[0]
                rest = Dim.mk({k: v for k, v in d.t if k != m})
                if s in rest.syms(): continue
                r = -rest if c == 1 else rest
                sg = dim_sign(r, st.mins)
                if sg == "-": raise DeadFlow()
                # prefer eliminating generated symbols
                if not s.startswith("~") and any(len(k) == 1 and k[0].startswith("~") and abs(v) == 1 for k, v in rest.t): continue
                st.dims[s] = r
                return
        sg = dim_sign(d, st.mins)
        if sg in ("+", "-"): raise DeadFlow()

    def exclude(self, d, st):
        # d != 0
        sy = d.syms()
        if len(sy) == 1 and len(d.t) <= 2:
            s = next(iter(sy))
            c = dict(d.t).get((s,))
            k = dict(d.t).get((), 0)
            if c in (1, -1):
                v = -k * c   # s != v
                mn = max(_SYM_MIN.get(s, 0), st.mins.get(s, 0))
                if v == mn: st.mins[s] = v + 1

    def atleast(self, d, st):
        """Assume d >= 0."""
        sg = dim_sign(d, st.mins)
        if sg == "-": raise DeadFlow()
        sy = d.syms()
        if len(sy) == 1:
            s = next(iter(sy)); dd = dict(d.t)
            if dd.get((s,)) == 1 and len(d.t) <= 2:
                k = -dd.get((), 0)
                if k > max(_SYM_MIN.get(s, 0), st.mins.get(s, 0)): st.mins[s] = k
            elif dd.get((s,)) == -1 and len(d.t) <= 2:
                # s <= k ; with s >= k -> equality
                k = dd.get((), 0)
                if max(_SYM_MIN.get(s, 0), st.mins.get(s, 0)) == k: st.dims[s] = Dim.const(k)

    # attribute access
    def e_Attribute(self, e, st):
        return self.getattr(self.ev(e.value, st), e.attr, st)

    def getattr(self, ob, name, st):
        if isinstance(ob, Union):
            return self.over(ob, lambda o, y: self.getattr(o, name, y), st)
        if isinstance(ob, ModV):
            if name in ob.env: return ob.env[name]
            if self.find_mod(ob.name + "." + name):
                m = self.mods.get(ob.name + "." + name)
                if m is not None and m.done is True: return m
            self.must_raise(st, "AttributeError", f"module {ob.name} has no attribute {name}")
        if isinstance(ob, ClassV):
            v, _ = ob.lookup(name)
            if v is not None:
                if isinstance(v, FuncV) and "classmethod" in v.decos: return BoundV(ob, v, ob)
                return v
            if name == "__name__": return self.const(ob.name)
            if ob.ext_bases(): return ExtV(ob.ext_bases()[0].name + "." + name)
            self.must_raise(st, "AttributeError", f"class {ob.name} has no attribute {name}")
        if isinstance(ob, SuperV):
            mro = []
            h = self.obj(ob.self, st)
            full = h.cls.mro() if isinstance(h, InstO) and isinstance(h.cls, ClassV) else ob.cls.mro()
            after = full[full.index(ob.cls) + 1:] if ob.cls in full else full
            for c in after:
                if isinstance(c, ClassV) and name in c.attrs:
                    v = c.attrs[name]
                    if isinstance(v, PropV): return self.call_func(v.fget, [ob.self], {}, st)
                    return BoundV(ob.self, v, c)
                if isinstance(c, ExtV) and c.name not in ("builtins.object", "abc.ABC"):
                    return BoundV(ob.self, ExtV(c.name + "." + name))
            return BoundV(ob.self, ExtV("builtins.object." + name))
        if isinstance(ob, Ref):
            o = st.heap.get(ob.oid)
            if isinstance(o, InstO): return self.inst_attr(ob, o, name, st)
        return self.lib.getattr(ob, name, st)

    def inst_attr(self, ob, o, name, st):
        if name in o.fields and name != "__node__":
            if isinstance(o.cls, ClassV):
                a, _ = o.cls.lookup(name)
                if isinstance(a, PropV): return self.call_func(a.fget, [ob], {}, st)
            return o.fields[name]
        if isinstance(o.cls, ClassV):
            a, c = o.cls.lookup(name)
            if a is not None:
                if isinstance(a, PropV): return self.call_func(a.fget, [ob], {}, st)
                if isinstance(a, FuncV):
                    if "staticmethod" in a.decos: return a
                    if "classmethod" in a.decos: return BoundV(o.cls, a, c)
                    return BoundV(ob, a, c)
                return a
            if name == "__class__": return o.cls
            if name == "__dict__":
                return self.alloc(st, DictO(dict(o.fields)), "dict")
            ex = [x for x in o.cls.ext_bases() if x.name not in ("abc.ABC", "builtins.object") and not x.name.startswith(("collections.abc", "typing."))]
            if ex: return BoundV(ob, ExtV(ex[0].name + "." + name))
            if any(x.name.startswith("collections.abc") for x in o.cls.ext_bases()) and name in ("index", "count", "__iter__", "__contains__", "__reversed__"):
                return BoundV(ob, ExtV("collections.abc." + name))
            self.must_raise(st, "AttributeError", f"{o.cls.name} has no attribute {name}")
        return self.lib.ext_inst_attr(ob, o, name, st)

    def e_Subscript(self, e, st):
        ob = self.ev(e.value, st)
        ix = self.ev_index(e.slice, st)
        return self.getitem(ob, ix, st)

    def e_Starred(self, e, st): return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else self.const(None)
        fr = self.frames[-1]
        if fr.yields is None: fr.yields = []
        self.lib.do_yield(fr, v, st)
        return self.const(None)

    def e_YieldFrom(self, e, st):
        it = self.ev(e.value, st)
        fr = self.frames[-1]
        if fr.yields is None: fr.yields = []
        self.for_each(it, st, lambda v, x: self.lib.do_yield(fr, v, x), lambda x: x, [], e)
        return self.const(None)

    def e_Await(self, e, st): return self.ev(e.value, st)

    # comprehensions
    def e_ListComp(self, e, st):
        self.consumers.append("comp:list")
        try: return self.comp(e, st, "list")
        finally: self.consumers.pop()
    def e_SetComp(self, e, st):
        self.consumers.append("comp:set")
        try: return self.comp(e, st, "set")
        finally: self.consumers.pop()
    def e_GeneratorExp(self, e, st): return self.comp(e, st, "iter")

    def comp(self, e, st, kind):
        site = self.cur
        res = self.new_list(st, [], kind=kind, key="comp")
        saved = dict(st.env)
        def level(i, x):
            if i == len(e.generators):
                v = self.ev(e.elt, x)
                self.cur = site
                self.lib.list_append(res, v, x)
                return x
            gn = e.generators[i]
            def body(y):
                for c in gn.ifs:
                    t, n = self.truth(self.ev(c, y), y)
                    if t is False:
                        self.frames[-1].loops[-1][1].append(y); return None
                    if t is None:
                        z = y.fork(); z.pc = PC(y.pc, n, False)
                        try:
                            self.refine(c, n, False, z)
                            self.frames[-1].loops[-1][1].append(z)
                        except DeadFlow: pass
                        y.pc = PC(y.pc, n, True)
                    self.refine(c, n, True, y)
                return level(i + 1, y)
            it = self.ev(gn.iter, x)
            return self.for_each(it, x, lambda v, y: self.assign(gn.target, v, y), body, [], gn.target)
        self.scoped += 1
        try: r = level(0, st.fork())
        finally: self.scoped -= 1
        if r is None: raise DeadFlow()
        self.become(st, r)
        for k in list(st.env):
            if k not in saved: del st.env[k]
            else: st.env[k] = saved[k]
        if len(e.generators) == 1 and e.generators[0].ifs: self.picked[res.oid] = e
        return res

    def e_DictComp(self, e, st):
        res = self.alloc(st, DictO(), "dcomp")
        saved = dict(st.env)
        def level(i, x):
            if i == len(e.generators):
                k = self.ev(e.key, x); v = self.ev(e.value, x)
                self.lib.setitem(res, k, v, x, None, quiet=True)
                return x
            gn = e.generators[i]
            def body(y):
                for c in gn.ifs:
                    t, n = self.truth(self.ev(c, y), y)
                    if t is False:
                        self.frames[-1].loops[-1][1].append(y); return None
                    if t is None:
                        z = y.fork()
                        self.frames[-1].loops[-1][1].append(z)
                    self.refine(c, n, True, y)
                return level(i + 1, y)
            it = self.ev(gn.iter, x)
            return self.for_each(it, x, lambda v, y: self.assign(gn.target, v, y), body, [], gn.target)
        self.scoped += 1
        try: r = level(0, st.fork())
        finally: self.scoped -= 1
        if r is None: raise DeadFlow()
        self.become(st, r)
        for k in list(st.env):
            if k not in saved: del st.env[k]
            else: st.env[k] = saved[k]
        return res

    # calls
    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            fr = self.frames[-1]
            if not e.args:
                first = fr.func.node.args.args[0].arg
                return SuperV(fr.func.cls, st.env[first])
            return SuperV(self.ev(e.args[0], st), self.ev(e.args[1], st))
        f = self.ev(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                sp = self.lib.iterate(self.ev(a.value, st), st, a)
                if sp[0] == "exact": args += list(sp[1])
                else: args.append(("*", sp[1](st) if callable(sp[1]) else sp[1]))
            elif isinstance(a, ast.GeneratorExp) and isinstance(f, ExtV) and f.name.startswith("builtins."):
                self.consumers.append(f.name[9:])
                try: args.append(self.ev(a, st))
                finally: self.consumers.pop()
            else: args.append(self.ev(a, st))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, st)
                o = self.obj(d, st)
                if isinstance(o, DictO) and o.complete: kw.update({x: y for x, y in o.items.items()})
                else: self.note("kwargs-unknown"); kw["**"] = d
            else: kw[k.arg] = self.ev(k.value, st)
        self.tick(e)
        return self.call(f, args, kw, st)

    def call(self, f, args, kw, st):
        if isinstance(f, Union):
            return self.over(f, lambda x, y: self.call(x, args, kw, y), st)
        if isinstance(f, FuncV): return self.call_func(f, args, kw, st)
        if isinstance(f, BoundV):
            if isinstance(f.func, FuncV): return self.call_func(f.func, [f.self] + args, kw, st)
            return self.lib.call_method(f, args, kw, st)
        if isinstance(f, ClassV): return self.construct(f, args, kw, st)
        if isinstance(f, ExtV): return self.lib.call_ext(f.name, args, kw, st)
        if isinstance(f, Ref):
            o = st.heap.get(f.oid)
            if isinstance(o, InstO):
                if isinstance(o.cls, ClassV):
                    c, _ = o.cls.lookup("__call__")
                    if c is not None: return self.call_func(c, [f] + args, kw, st)
                    if any("Module" in x.name for x in o.cls.ext_bases()):
                        fw, _ = o.cls.lookup("forward")
                        if fw is not None: return self.call_func(fw, [f] + args, kw, st)
                return self.lib.call_inst(f, o, args, kw, st)
        if isinstance(f, Node) and f.dt in ("N", "s", "i", "f", "b"):
            self.must_raise(st, "TypeError", "object is not callable")
        return self.lib.call_unknown(f, args, kw, st)

    def construct(self, c, args, kw, st):
        if any(x.name in EXT_EXC or (x.name.startswith("builtins.") and x.name[9:] in BUILTIN_EXC) for x in c.ext_bases()):
            return ExcV(c, self.cur, tuple(args))
        ref = self.alloc(st, InstO(c, {}), "inst" + c.name)
        init, _ = c.lookup("__init__")
        if getattr(c, "is_dataclass", False) and init is None:
            names = []
            for k in reversed(c.mro()):
                if isinstance(k, ClassV):
                    names += [s.target.id for s in k.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            f = {}
            for n, a in zip(names, args): f[n] = a
            f.update(kw)
            for n in names:
                if n not in f and n in c.attrs: f[n] = c.attrs[n]
            st.heap[ref.oid] = InstO(c, f)
            pi, _ = c.lookup("__post_init__")
            if pi is not None: self.call_func(pi, [ref], {}, st)
            return ref
        if init is not None: self.call_func(init, [ref] + args, kw, st)
        return ref

    def bind_args(self, f, args, kw, st):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        star = [x for x in args if isinstance(x, tuple)]
        i = 0
        extra = []
        for x in args:
            if isinstance(x, tuple):     # *summary : fills the remaining positionals
                while i < len(pos):
                    if pos[i] not in kw: env[pos[i]] = x[1]
                    i += 1
                extra.append(x[1]); continue
            if i < len(pos): env[pos[i]] = x; i += 1
            else: extra.append(x)
        if extra and a.vararg is None and not star:
            self.must_raise(st, "TypeError", f"too many positional arguments for {f.name}")
        if a.vararg is not None: env[a.vararg.arg] = TupleV(extra)
        kws = {}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k == "**": continue
            if k in names:
                if k in env and not star:
                    self.must_raise(st, "TypeError", f"multiple values for {k}")
                env[k] = v
            elif a.kwarg is not None: kws[k] = v
            else: self.must_raise(st, "TypeError", f"{f.name}() got an unexpected keyword argument '{k}'")
        if a.kwarg is not None: env[a.kwarg.arg] = self.alloc(st, DictO(kws), "kwargs")
        nd = len(f.defaults)
        for j, n in enumerate(pos):
            if n not in env:
                k = j - (len(pos) - nd)
                if k >= 0: env[n] = f.defaults[k]
                elif "**" in kw: env[n] = self.g.top("kwargs")
                else: self.must_raise(st, "TypeError", f"{f.name}() missing argument '{n}'")
        for x in a.kwonlyargs:
            if x.arg not in env:
                d = f.kwdefaults.get(x.arg)
                if d is None and "**" not in kw: self.must_raise(st, "TypeError", f"{f.name}() missing argument '{x.arg}'")
                env[x.arg] = d if d is not None else self.g.top("kwargs")
        return env

    def call_func(self, f, args, kw, st):
        if not isinstance(f, FuncV): return self.call(f, args, kw, st)
        hook = self.hooks.get(f.mod.name + "." + f.qual())
        if hook is not None:
            r = hook(self, f, args, kw, st)
            if r is not NotImplemented: return r
        self.functions_seen.add(f.mod.name + "." + f.qual())
        self.call_count += 1
        if self.depth > self.MAX_DEPTH or sum(1 for x in self.frames if x.func is f) > 3:
            self.note("recursion", f.qual())
            return self.g.top("recursion " + f.name)
        site = self.cur
        env = self.bind_args(f, args, kw, st)
        caller_env, caller_pc = st.env, st.pc
        sctx = self.ctx
        self.ctx = self.sub(("call", site, f.mod.name, f.qual()))
        fr = Frame(f, f.mod)
        fr.args = dict(env)
        self.frames.append(fr)
        self.colls.append({})
        self.depth += 1
        st2 = State(env, st.heap, st.pc, st.facts, st.dims, st.mins)
        before = dict(st.heap) if self.frames[:-1] else None
        self.event("enter", st2, fn=f, args=dict(env))
        try:
            out = self.block(f.node.body, st2)
        finally:
            self.depth -= 1
            self.frames.pop()
            coll = self.colls.pop()
            self.ctx = sctx
            self.cur = site
        if out is not None: fr.returns.append((self.const(None), out))
        for e, es in coll.values():
            es.env = dict(caller_env)
            ex = ExcV(e.cls, e.site, e.args, e.explicit, e.why, ((f.mod.name + "." + f.qual(), site),) + e.trail)
            ex.extents = e.extents
            if before is not None: self.abandon(es, before, e)
            self.throw(es, ex)
        if not fr.returns:
            raise DeadFlow()
        res = None
        if not self.frames: self.last_returns = [(v, s) for v, s in fr.returns]
        for v, s in fr.returns:
            s.env = {"%r": v}
            res = self.join(res, s)
        v = res.env["%r"]
        res.env = caller_env
        # the values keep their control dependences through the joins; drop the callee's path
        common, _, _ = pc_common(res.pc, caller_pc)
        res.pc = common if common is caller_pc or caller_pc is None else res.pc
        self.become(st, res)
        if f.isgen:
            return self.lib.make_gen(fr, st)
        self.event("exit", st, fn=f, ret=v)
        return v


    def abandon(self, st, before, exc):
        """Forget what a function that did not return had created for itself."""
        new = [k for k in st.heap if k not in before]
        if not new: return
        from .framework import reachable
        keep = set()
        for x in exc.args or (): keep |= set(reachable(st, x)) if not isinstance(x, str) else set()
        for k, o in before.items():
            h = st.heap.get(k)
            if h is not o and h is not None: keep |= set(reachable(st, Ref(k)))
        for k in new:
            if k not in keep: del st.heap[k]


def _has_yield(s):
    todo = list(s.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)): continue
        todo += list(ast.iter_child_nodes(n))
    return False


from .core import _jshape as _jsh, _SYM_MIN  # noqa: E402
