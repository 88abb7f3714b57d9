"""Value-flow graph (hash-consed nodes), symbolic dimensions, abstract heap and states."""
from __future__ import annotations
import itertools
from fractions import Fraction

# ----------------------------------------------------------------------------- dims
_SK = {}


def _skey(s):
    k = _SK.get(s)
    if k is None: k = _SK[s] = s if isinstance(s, str) else "\x7f" + repr(s)
    return k


def _mkey(x): return tuple(_skey(s) for s in x[0])


class Dim:
    """Integer polynomial over non-negative symbols; used for extents and integers."""
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t  # tuple sorted of (monomial(tuple of syms), coeff)
        self._h = hash(t)

    @staticmethod
    def mk(d):
        return Dim(tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=_mkey)))

    @staticmethod
    def const(n):
        return Dim.mk({(): n})

    @staticmethod
    def sym(s):
        return Dim.mk({(s,): 1})

    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, Dim) and self.t == o.t
    def is_const(self): return all(m == () for m, _ in self.t)
    def value(self): return self.t[0][1] if self.t else 0

    def __add__(self, o):
        d = dict(self.t)
        for m, c in o.t: d[m] = d.get(m, 0) + c
        return Dim.mk(d)

    def __neg__(self): return Dim.mk({m: -c for m, c in self.t})
    def __sub__(self, o): return self + (-o)

    def __mul__(self, o):
        d = {}
        for m, c in self.t:
            for n, e in o.t:
                k = tuple(sorted(m + n, key=_skey)); d[k] = d.get(k, 0) + c * e
        return Dim.mk(d)

    def div(self, o):
        """Exact division or None."""
        if len(o.t) == 1:
            (m, c), = o.t
            out = {}
            for n, e in self.t:
                if e % c: return None
                n = list(n)
                for s in m:
                    if s not in n: return None
                    n.remove(s)
                out[tuple(n)] = e // c
            return Dim.mk(out)
        if self == o: return Dim.const(1)
        return None

    def syms(self): return {s for m, _ in self.t for s in m}

    def subst(self, mp):
        if not mp or not (self.syms() & mp.keys()): return self
        r = Dim.const(0)
        for m, c in self.t:
            x = Dim.const(c)
            for s in m: x = x * mp.get(s, Dim.sym(s))
            r = r + x
        return r

    def __repr__(self):
        if not self.t: return "0"
        out = []
        for m, c in sorted(self.t, key=lambda x: (-len(x[0]), _mkey(x))):
            if m == (): out.append(str(c))
            else:
                b = "*".join(_short(s) for s in m)
                out.append(b if c == 1 else f"{c}*{b}")
        return "+".join(out).replace("+-", "-")


def _short(s):
    return s if isinstance(s, str) else str(s)


D0, D1 = Dim.const(0), Dim.const(1)
_SYM_MIN = {}          # symbol -> minimal value (default 0)
_SYM_KEYS = {}         # key -> symbol (deterministic numbering)


def new_sym(key, minimum=0):
    if isinstance(key, str): s = key
    else:
        s = _SYM_KEYS.get(key)
        if s is None:
            s = _SYM_KEYS[key] = (f"{key[1]}" if key[0] == "in" else f"~{key[0]}{len(_SYM_KEYS)}") if isinstance(key, tuple) else f"~{len(_SYM_KEYS)}"
    _SYM_MIN.setdefault(s, minimum)
    return Dim.sym(s)


LOST = ("~lost",)      # an extent the analysis does not know at all


def components(syms):
    """The extents that joined extents stand for."""
    keys = {v: k for k, v in _SYM_KEYS.items()}
    out, todo = set(), list(syms)
    while todo:
        s = todo.pop()
        if s in out: continue
        out.add(s)
        k = keys.get(s)
        if isinstance(k, tuple):
            for x in k:
                if isinstance(x, Dim): todo += x.syms()
    return out


def dim_low(d, mins=None):
    """A number that d never falls below, or None."""
    lo = 0
    for m, c in d.t:
        if m == (): lo += c; continue
        if c < 0: return None
        mn = 1
        for s in m:
            mm = _SYM_MIN.get(s, 0)
            if mins and s in mins: mm = max(mm, mins[s])
            mn *= mm
        lo += c * mn
    return lo


def dim_sign(d, mins=None):
    """'+', '-', '0', '>=', '<=' or None for the sign of d with symbols >= their minima."""
    if d.is_const():
        v = d.value()
        return "0" if v == 0 else ("+" if v > 0 else "-")
    def bound(sgn):
        lo = 0
        for m, c in d.t:
            c *= sgn
            if m == ():
                lo += c; continue
            mn = 1
            for s in m:
                mm = _SYM_MIN.get(s, 0)
                if mins and s in mins: mm = max(mm, mins[s])
                mn *= mm
            if c < 0: return None
            lo += c * mn
        return lo
    lo = bound(1)
    if lo is not None:
        if lo > 0: return "+"
        if lo == 0: return ">="
    lo = bound(-1)
    if lo is not None:
        if lo > 0: return "-"
        if lo == 0: return "<="
    return None


# ----------------------------------------------------------------------------- nodes
class _No:
    def __repr__(self): return "<no>"
NO = _No()


class Node:
    """SSA value. const: known python value; shape: None unknown, () scalar, tuple of Dim;
    dt: 'f','i','b','n' (int or float),'c','s' (str),'o' (object),'N' (None), None unknown."""
    __slots__ = ("id", "op", "args", "attr", "const", "shape", "dt", "ival", "meta", "site", "ctrl", "__weakref__")

    def __repr__(self): return f"n{self.id}"

    def is_const(self): return self.const is not NO


class Graph:
    def __init__(self):
        self.n = 0
        self.table = {}
        self.owner = None
        self.sel = None     # (condition, first value holds when it is true) of the join being made
        self.sides = None   # the states being joined
        self.sels = {}      # phi id -> (condition, value when true, value otherwise)

    def new(self, op, args=(), attr=None, const=NO, shape=None, dt=None, ival=None, meta=None, site=None, ctrl=()):
        nd = Node()
        self.n += 1
        nd.id = self.n
        nd.op, nd.args, nd.attr, nd.const, nd.shape, nd.dt, nd.ival = op, tuple(args), attr, const, shape, dt, ival
        nd.meta, nd.site, nd.ctrl = meta, site if site is not None or self.owner is None else self.owner.cur, ctrl
        return nd

    def mk(self, op, args=(), attr=None, shape=None, dt=None, ival=None, site=None, ctrl=(), meta=None):
        try:
            k = (op, tuple(a.id for a in args), attr, shape, dt, tuple(sorted(c.id for c in ctrl)))
            r = self.table.get(k)
        except TypeError:
            return self.new(op, args, attr, NO, shape, dt, ival, meta, site, ctrl)
        if r is None:
            r = self.new(op, args, attr, NO, shape, dt, ival, meta, site, ctrl)
            self.table[k] = r
        return r

    def const(self, v):
        k = ("const", type(v).__name__, repr(v) if isinstance(v, float) else v)
        try:
            r = self.table.get(k)
        except TypeError:
            r = None; k = None
        if r is None:
            dt, ival, shape = None, None, ()
            if v is None: dt = "N"
            elif isinstance(v, bool): dt, ival = "b", Dim.const(int(v))
            elif isinstance(v, int): dt, ival = "i", Dim.const(v)
            elif isinstance(v, float): dt = "f"
            elif isinstance(v, complex): dt = "c"
            elif isinstance(v, (str, bytes)): dt = "s"
            r = self.new("const", (), None, v, shape, dt, ival)
            if k is not None: self.table[k] = r
        return r

    def dim(self, d):
        """Integer node with symbolic value."""
        if d.is_const(): return self.const(d.value())
        k = ("dim", d)
        r = self.table.get(k)
        if r is None:
            r = self.new("dim", (), d, NO, (), "i", d)
            self.table[k] = r
        return r

    def leaf(self, name, shape=None, dt=None, meta=None):
        k = ("leaf", name, shape, dt)
        r = self.table.get(k)
        if r is None:
            r = self.new("leaf", (), name, NO, shape, dt, None, dict(meta or {}))
            self.table[k] = r
        return r

    def phi(self, a, b, ctrl=()):
        """Join of two values (path-insensitive merge, with the deciding conditions)."""
        if a is b: return a
        xs = []
        cs = {c.id: c for c in ctrl}
        for x in (a, b):
            if x.op == "phi":
                xs += x.args
                for c in x.ctrl: cs[c.id] = c
            else: xs.append(x)
        xs = sorted({x.id: x for x in xs}.values(), key=lambda x: x.id)
        if len(xs) == 1: return xs[0]
        if len(xs) > 12:
            return self.top("widened", shape=_jshape_all(xs), dt=_jdt_all(xs))
        shape, dt = self.jshape(a, b, xs), _jdt_all(xs)
        iv = xs[0].ival if all(x.ival == xs[0].ival for x in xs) else None
        r = self.mk("phi", xs, None, shape, dt, iv, ctrl=tuple(cs.values()))
        ms = [(x.meta or {}).get("member") for x in xs]
        if ms[0] is not None and all(m == ms[0] for m in ms): r.meta = dict(r.meta or {}, member=ms[0])
        if self.sel is not None:
            new = (self.sel[0], a, b) if self.sel[1] else (self.sel[0], b, a)
            if self.sels.setdefault(r.id, new) != new: self.sels[r.id] = None
        else: self.sels[r.id] = None
        return r

    def jshape(self, a, b, xs):
        if self.sides is None or a.shape is None or b.shape is None or a.shape == b.shape or len(a.shape) != len(b.shape): return _jshape_all(xs)
        p, q = self.sides
        out = [x if x == y else p.norm(x) if p.norm(x) == q.norm(y) else None for x, y in zip(a.shape, b.shape)]
        if None not in out: return tuple(out)
        rest = _jshape_all(xs)
        return tuple(r if o is None else o for o, r in zip(out, rest)) if rest is not None else None

    def select(self, c, a, b, ctrl=()):
        """a where the condition c holds, b otherwise"""
        saved, self.sel = self.sel, (c, True)
        try: return self.phi(a, b, ctrl)
        finally: self.sel = saved

    def top(self, why="", shape=None, dt=None):
        return self.mk("top", (), why, shape, dt)


def _jshape(a, b):
    if a == b: return a
    if a is None or b is None or len(a) != len(b): return None
    return tuple(x if x == y else new_sym(("jd", x, y)) for x, y in zip(a, b))


def _jshape_all(xs):
    s = xs[0].shape
    for x in xs[1:]: s = _jshape(s, x.shape)
    return s


def jdt(a, b):
    if a == b: return a
    return None


def _jdt_all(xs):
    d = xs[0].dt
    for x in xs[1:]: d = jdt(d, x.dt)
    return d


# ----------------------------------------------------------------------------- values
class TupleV:
    __slots__ = ("items", "names")
    def __init__(self, items, names=None): self.items = tuple(items); self.names = names
    def __eq__(self, o): return isinstance(o, TupleV) and self.items == o.items
    def __hash__(self): return hash(("T", self.items))
    def __repr__(self): return f"({', '.join(map(repr, self.items))})"

class Ref:
    __slots__ = ("oid",)
    def __init__(self, oid): self.oid = oid
    def __eq__(self, o): return isinstance(o, Ref) and self.oid == o.oid
    def __hash__(self): return hash(("R", self.oid))
    def __repr__(self): return f"&{self.oid}"

class Union:
    __slots__ = ("vals", "sel")    # sel: (condition, value when true, value otherwise) where known
    def __init__(self, vals, sel=None): self.vals, self.sel = frozenset(vals), sel
    def __eq__(self, o): return isinstance(o, Union) and self.vals == o.vals
    def __hash__(self): return hash(("U", self.vals))
    def __repr__(self): return "{" + "|".join(sorted(map(repr, self.vals))) + "}"

class FuncV:
    __slots__ = ("node", "mod", "cls", "closure", "name", "defaults", "kwdefaults", "decos", "isgen")
    def __init__(self, node, mod, name, cls=None, closure=None):
        self.node, self.mod, self.name, self.cls, self.closure = node, mod, name, cls, closure
        self.defaults, self.kwdefaults, self.decos, self.isgen = [], {}, [], False
    def __repr__(self): return f"<func {self.mod.name}.{self.qual()}>"
    def qual(self): return (self.cls.name + "." if self.cls else "") + self.name

class ClassV:
    def __init__(self, name, mod, node, bases):
        self.name, self.mod, self.node, self.bases, self.attrs = name, mod, node, bases, {}
    def __repr__(self): return f"<class {self.name}>"
    def mro(self):
        out, seen = [], set()
        def go(c):
            if id(c) in seen: return
            seen.add(id(c)); out.append(c)
            if isinstance(c, ClassV):
                for b in c.bases: go(b)
        # left-to-right depth first with late common bases is enough for this code base
        go(self)
        return out
    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassV) and name in c.attrs: return c.attrs[name], c
        return None, None
    def ext_bases(self): return [c for c in self.mro() if isinstance(c, ExtV)]

class ModV:
    def __init__(self, name, path): self.name, self.path, self.env, self.done, self.tree = name, path, {}, False, None
    def __repr__(self): return f"<mod {self.name}>"

class ExtV:
    """External (library / builtin) function, class, module or attribute, by dotted name."""
    __slots__ = ("name",)
    def __init__(self, name): self.name = name
    def __eq__(self, o): return isinstance(o, ExtV) and self.name == o.name
    def __hash__(self): return hash(("E", self.name))
    def __repr__(self): return f"<ext {self.name}>"

class BoundV:
    __slots__ = ("self", "func", "cls")
    def __init__(self, s, f, cls=None): self.self, self.func, self.cls = s, f, cls
    def __eq__(self, o): return isinstance(o, BoundV) and self.self == o.self and self.func == o.func
    def __hash__(self): return hash(("B", self.self, self.func if isinstance(self.func, (str, ExtV)) else id(self.func)))
    def __repr__(self): return f"<bound {self.func} of {self.self}>"

class SuperV:
    __slots__ = ("cls", "self")
    def __init__(self, cls, s): self.cls, self.self = cls, s

class SliceV:
    __slots__ = ("lo", "hi", "step")
    def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step
    def __eq__(self, o): return isinstance(o, SliceV) and (self.lo, self.hi, self.step) == (o.lo, o.hi, o.step)
    def __hash__(self): return hash(("S", self.lo, self.hi, self.step))

class PropV:
    def __init__(self, fget=None, fset=None): self.fget, self.fset = fget, fset


# ----------------------------------------------------------------------------- heap objects
class Obj:
    __slots__ = ()

class ArrO(Obj):
    """ndarray/Tensor. base: None or (oid, spec) for views; content None for index views (derived)."""
    __slots__ = ("content", "base", "lib")
    def __init__(self, content, base=None, lib="np"): self.content, self.base, self.lib = content, base, lib
    def __eq__(self, o): return isinstance(o, ArrO) and self.content is o.content and self.base == o.base
    def __hash__(self): return id(self)

class ListO(Obj):
    """kind list/set/deque/iter. items exact tuple or None; elem summary; length Dim."""
    __slots__ = ("items", "elem", "length", "kind", "src")
    def __init__(self, items=None, elem=None, length=None, kind="list", src=None):
        self.items = None if items is None else tuple(items)
        self.elem = elem
        self.length = Dim.const(len(self.items)) if self.items is not None else length
        self.kind = kind
        self.src = src
    def __eq__(self, o):
        return isinstance(o, ListO) and (self.items, self.elem, self.length, self.kind) == (o.items, o.elem, o.length, o.kind)
    def __hash__(self): return id(self)

class DictO(Obj):
    """items exact: dict const-key -> value (complete=True) ; otherwise summary key/val."""
    __slots__ = ("items", "key", "val", "complete", "length")
    def __init__(self, items=None, key=None, val=None, complete=True, length=None):
        self.items, self.key, self.val, self.complete, self.length = dict(items or {}), key, val, complete, length
    def __eq__(self, o):
        return isinstance(o, DictO) and (self.items, self.key, self.val, self.complete) == (o.items, o.key, o.val, o.complete)
    def __hash__(self): return id(self)

class InstO(Obj):
    __slots__ = ("cls", "fields", "tag")
    def __init__(self, cls, fields, tag=None): self.cls, self.fields, self.tag = cls, fields, tag
    def __eq__(self, o): return isinstance(o, InstO) and self.cls == o.cls and self.fields == o.fields
    def __hash__(self): return id(self)


class ExcV:
    """Exception value. cls: ClassV or ExtV('builtins.X'). explicit: from a raise statement."""
    __slots__ = ("cls", "site", "args", "explicit", "why", "trail", "extents")
    def __init__(self, cls, site, args=(), explicit=True, why="", trail=()):
        self.cls, self.site, self.args, self.explicit, self.why, self.trail = cls, site, args, explicit, why, trail
        self.extents = frozenset()
    def name(self): return self.cls.name.split(".")[-1]
    def key(self): return (self.name(), self.site, self.explicit, self.why)
    def __repr__(self): return f"<exc {self.name()} @{self.site}>"
    def __eq__(self, o): return isinstance(o, ExcV) and self.key() == o.key()
    def __hash__(self): return hash(self.key())


class PC:
    """Persistent path condition."""
    __slots__ = ("up", "cond", "pol", "n")
    def __init__(self, up, cond, pol): self.up, self.cond, self.pol, self.n = up, cond, pol, (up.n + 1 if up else 1)


def pc_list(pc):
    out = []
    while pc is not None:
        out.append((pc.cond, pc.pol)); pc = pc.up
    return out[::-1]


def pc_common(a, b):
    da, db = [], []
    while a is not b:
        an = a.n if a else 0; bn = b.n if b else 0
        if an >= bn:
            da.append((a.cond, a.pol)); a = a.up
        if bn >= an and b is not None and (bn > an or a is not b):
            if a is b: break
            db.append((b.cond, b.pol)); b = b.up
    return a, da, db


class State:
    __slots__ = ("env", "heap", "pc", "facts", "dims", "mins")

    def __init__(self, env=None, heap=None, pc=None, facts=None, dims=None, mins=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.facts = facts if facts is not None else {}
        self.dims = dims if dims is not None else {}
        self.mins = mins if mins is not None else {}

    def fork(self):
        return State(dict(self.env), dict(self.heap), self.pc, dict(self.facts), dict(self.dims), dict(self.mins))

    def norm(self, d):
        if d is None or not self.dims: return d
        for _ in range(6):
            e = d.subst(self.dims)
            if e == d: return e
            d = e
        return d
