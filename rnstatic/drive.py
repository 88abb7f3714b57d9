"""Running repository functions on symbolic inputs."""
import time
from .core import *
from .interp import Interp


class Result:
    """All exits of one entry: normal returns (joined and per path) and exceptional ones."""
    def __init__(self, name):
        self.name, self.value, self.st = name, None, None
        self.paths, self.raises, self.events, self.error, self.pre = [], [], [], None, None
        self.args, self.notes, self.fn = {}, {}, None

    def __repr__(self):
        return f"<{self.name}: {len(self.paths)} returns, {len(self.raises)} raises, {len(self.events)} events, err={self.error}>"


class Session:
    def __init__(self, root="/repo", absent=(), budget=3_000_000):
        self.I = Interp(root, absent, budget=budget)
        self.names, self.failed = self.I.load_all()
        self.st0 = self.I.modstate
        self.results = {}
        self.log = []
        self.module_oids = self.I.module_oids = set(self.st0.heap)
        self.import_events = list(self.I.events)

    # ---- inputs
    def leaf(self, name, shape=(), dt="f", **meta):
        return self.I.g.leaf(name, shape, dt, meta)

    def arr(self, st, name, shape, dt="f", lib="np", **meta):
        I = self.I
        I.cur = ("<input>", name, 0)
        return I.new_arr(st, self.leaf(name, tuple(Dim.const(x) if isinstance(x, int) else x for x in shape), dt, **meta), ("in", name), lib=lib, origin=("arg", name))

    def dim(self, name, minimum=1):
        return new_sym(("in", name), minimum)

    def scalar(self, name, dt="f", **meta):
        return self.leaf(name, (), dt, **meta)

    def const(self, v): return self.I.const(v)

    def list(self, st, name, elem, length, kind="list"):
        I = self.I
        I.cur = ("<input>", name, 0)
        src = None
        if isinstance(elem, Node) and elem.op == "leaf" and elem.shape == ():
            src = I.g.leaf(("srcidx", name), (), "i")      # elements at different places are different values
            if src.ival is None: src.ival = new_sym(("si", name), 0); src.meta["sym"] = next(iter(src.ival.syms()))
            elem = I.g.mk("iterelem", [elem, src], None, (), elem.dt, meta=dict(elem.meta or {}))
        return I.alloc(st, ListO(None, elem, length, kind, src), ("in", name), ("arg", name))

    def strlist(self, st, name, length):
        I = self.I
        return self.list(st, name, I.g.leaf(name + "[]", (), "s"), length)

    # ---- running
    def run(self, name, f, args, kw=None, st=None, keep_env=False):
        """f: dotted name or value."""
        I = self.I
        r = Result(name)
        self.log.append(r)
        st = (st or self.st0).fork()
        st.pc = None
        st.facts[("ghost", "clean")] = True
        r.pre = st.fork()
        if isinstance(f, str):
            try: f = I.get(f)
            except KeyError:
                r.error = "missing " + str(f)
                return r
        r.fn = f
        r.args = {"args": args, "kw": kw or {}}
        I.frames.clear(); I.colls.clear(); I.loopstack.clear(); I.depth = 0
        I.cur = ("<entry>", 0, 0)
        octx, I.ctx = I.ctx, I.sub(("entry", name))
        ev0 = len(I.events)
        n0 = dict(I.notes)
        I.colls.append({})
        I.last_returns = []
        try:
            v = I.call(f, list(args), dict(kw or {}), st)
            r.value, r.st = v, st
            r.paths = I.last_returns
        except Exception as e:
            if type(e).__name__ == "DeadFlow": r.paths = []
            else:
                import traceback
                r.error = f"{type(e).__name__}: {e} at {I.cur}"
                r.tb = traceback.format_exc()
        coll = I.colls[0] if I.colls else {}
        I.colls.clear(); I.frames.clear()
        I.ctx = octx
        r.raises = list(coll.values())
        r.events = I.events[ev0:]
        r.notes = {k: v for k, v in I.notes.items() if n0.get(k) != v}
        return r

    def method(self, st, ref, name):
        """Bound method / property getter result function."""
        return self.I.getattr(ref, name, st)
