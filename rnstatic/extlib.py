"""Models of builtins, files, XML, scipy, spglib, torch modules and other external code."""
from __future__ import annotations
from .core import *
from .core import _SYM_MIN

TORCH_LAYERS = {"Linear", "Embedding", "LayerNorm", "BatchNorm1d", "Sequential", "ModuleList", "ShiftedSoftplus", "Dropout", "ReLU", "Softplus", "SiLU", "Tanh", "Sigmoid"}
NONDET = ("random.", "numpy.random", "torch.rand", "torch.normal", "torch.bernoulli", "torch.multinomial", "time.", "datetime.", "uuid.", "secrets.", "os.urandom", "os.environ",
          "os.getenv", "os.getcwd", "os.getpid", "os.times", "socket.", "platform.", "getpass.", "locale.", "os.listdir", "os.scandir", "glob.", "tempfile.",
          "builtins.id", "builtins.hash", "builtins.input", "pathlib.Path.cwd", "pathlib.Path.home", "os.uname", "os.cpu_count", "threading.", "os.path.expanduser", "sys.argv")
PATH_Q = {"exists", "is_file", "is_dir", "is_symlink", "samefile", "stat", "lstat"}
PATH_P = {"resolve", "absolute", "expanduser", "with_suffix", "with_name", "joinpath", "parent", "name", "stem", "suffix", "as_posix", "parents", "parts", "relative_to", "with_stem"}
PATH_W = {"unlink", "touch", "rename", "replace", "mkdir", "rmdir", "symlink_to", "hardlink_to", "chmod"}
FS_W = {"os.remove", "os.unlink", "os.rename", "os.replace", "os.truncate", "os.rmdir", "os.makedirs", "os.mkdir", "shutil.move", "shutil.copy", "shutil.copyfile", "shutil.copy2",
        "shutil.rmtree", "os.open", "os.link", "os.symlink", "os.chmod", "os.utime"}


class ExtMixin:
    def init_ext(self): pass

    def _fake(self): 
        return _FN(*self.I.cur[1:])

    def ext_obj(self, st, cls, key, **fields):
        return self.I.alloc(st, InstO(ExtV(cls), fields), (cls, key))

    # ------------------------------------------------------------------ calls
    def call_ext(self, name, args, kw, st):
        I, g = self.I, self.g
        root = name.split(".")[0]
        if root in I.absent: I.must_raise(st, "NameError", f"{name} is not available")
        if any(name.startswith(p) if p.endswith(".") or "." in p else name == p for p in NONDET):
            if name in ("builtins.id", "builtins.hash"):
                n = g.mk("call:" + name, [I.node_of(a, st) for a in args], None, (), "i")
                I.event("nondet", st, what=name, node=n); return n
            short = name.split(".")[-1]
            if name.startswith(("numpy.random", "torch.")) or name.startswith("random."):
                if short in ("default_rng", "RandomState", "Generator", "PCG64", "SeedSequence", "Random", "MT19937", "Philox"):
                    seeded = bool(args) and not self.is_none(args[0]) or bool(kw)
                    if not seeded: I.event("nondet", st, what=name + "() without a seed", node=None)
                    return self.ext_obj(st, "random.Generator", ("rng", seeded), seeded=self.const(seeded), __node__=g.new("random", [I.node_of(a, st) for a in args], name, NO, None, "o"))
                if short in ("seed", "manual_seed", "set_state", "setstate"):
                    I.event("extset", st, name=name); return self.const(None)
                r = self.rand_arr(name, args, kw, st)
                I.event("nondet", st, what=name, node=I.content(st, r)); return r
            n = I.top(name)
            I.event("nondet", st, what=name, node=n)
            return n
        if root == "builtins": return self.call_builtin(name[9:], args, kw, st)
        if root in ("numpy", "torch"):
            short = name.split(".")[-1]
            mods = name.split(".")[:-1]
            if name.startswith("numpy.linalg.") and short == "LinAlgError" or short.endswith("Error"): return ExcV(ExtV(name), I.cur, tuple(args))
            r = NotImplemented
            if root == "torch": r = self.call_torch(name, short, args, kw, st)
            if r is not NotImplemented: return r
            if short in ("float64", "float32", "int64", "int32", "intp", "bool_", "bool", "double", "int_") and root == "numpy":
                n = self.arr(args[0], st) if args else self.const(0)
                dt = self.dtype_of(ExtV(name), st, n.dt)
                if n.dt == "s": I.may_raise(st, "ValueError", "could not convert string")
                return self.wrap(n if dt == n.dt else g.mk("cast", [n], dt, n.shape, dt, meta={"np": True}), st, "npscalar")
            if short in ("set_printoptions", "seterr", "set_default_dtype", "set_default_device", "manual_seed", "set_num_threads", "use_deterministic_algorithms"):
                I.event("extset", st, name=name); return self.const(None)
            if short in ("errstate", "printoptions", "no_grad", "enable_grad", "inference_mode", "set_grad_enabled", "autocast"):
                return self.ext_obj(st, name, "ctx")
            if short == "savez" or short in ("save", "savetxt", "savez_compressed"):
                I.event("open", st, path=I.node_of(args[0], st), mode=self.const("w"), how=name)
                return self.const(None)
            if short in ("load", "loadtxt", "genfromtxt", "fromfile"):
                I.may_raise(st, "FileNotFoundError", "no such file"); I.may_raise(st, "ValueError", name)
                return I.top(name)
            if short == "vectorize": return I.top("np.vectorize")
            if short == "ndenumerate":
                return I.new_list(st, None, TupleV([I.top("ndindex"), I.top("ndvalue", shape=())]), self.fresh_len("ndenum"), kind="iter", key="nde")
            if short == "ndindex":
                return I.new_list(st, None, I.top("ndindex"), self.fresh_len("ndidx"), kind="iter", key="ndi")
            if short in ("finfo", "iinfo", "dtype"): return g.mk("call:" + name, [I.node_of(a, st) for a in args], None, (), "o")
            if short == "apply_along_axis": return I.top("np." + short)
            if not args and not kw: r = None
            else:
                try: r = self.arr_fn(short, list(args), dict(kw), st, "np" if root == "numpy" else "torch")
                except (IndexError, KeyError, TypeError, AttributeError) as e:
                    I.note("model-gap", f"{name}: {type(e).__name__} {e}"); r = None
            if r is not None: return r
            I.note("opaque", name)
            for a in args:
                if isinstance(a, Ref): I.event("escape", st, val=a, to=name)
            n = g.mk("call:" + name, [I.node_of(a, st) for a in args] + [I.node_of(v, st) for v in kw.values()], tuple(kw))
            return I.new_arr(st, n, "opaque" + short, None, "np" if root == "numpy" else "torch")
        if root == "scipy": return self.call_scipy(name, args, kw, st)
        if name == "spglib.get_symmetry": return self.call_spglib(name, args, kw, st)
        if root == "spglib":
            I.note("opaque", name)
            return Union([self.const(None), g.mk("call:" + name, [I.node_of(a, st) for a in args])])
        if name in ("copy.copy", "copy.deepcopy"): return self.do_copy(args[0], st, name == "copy.deepcopy")
        if name in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath"):
            n = I.node_of(args[0], st) if args else self.const(".")
            if n.dt in ("i", "f", "N", "b") or self.kind(args[0], st) in ("list", "dict", "arr", "tuple", "set"): I.must_raise(st, "TypeError", "expected str, bytes or os.PathLike")
            for a in args[1:]: n = g.mk("path:join", [n, I.node_of(a, st)], None, (), "s")
            return self.mkpath(n, st)
        if name in ("os.path.exists", "os.path.isfile", "os.path.lexists", "os.path.isdir"): 
            return g.mk("fs:exists", [self.pathnode(args[0], st)], name.split(".")[-1], (), "b")
        if name in ("os.path.getsize", "os.path.getmtime", "os.path.getctime", "os.path.getatime", "os.stat", "os.lstat", "os.access"):
            if name != "os.access": I.may_raise(st, "FileNotFoundError", "no such file")
            return g.mk("fs:stat", [self.pathnode(args[0], st)], name, (), "b" if name == "os.access" else "n") if name not in ("os.stat", "os.lstat") else g.mk("fs:stat", [self.pathnode(args[0], st)], "stat")
        if name == "os.fspath": return self.pathnode(args[0], st)
        if name.startswith("os.path."):
            return g.mk("path:" + name[8:], [I.node_of(a, st) for a in args], None, (), "s")
        if name in FS_W:
            I.event("fsop", st, what=name, args=[self.pathnode(a, st) for a in args])
            return self.const(None)
        if name in ("io.open", "codecs.open", "gzip.open"): return self.call_builtin("open", args, kw, st)
        if name in ("io.StringIO",):
            return self.ext_obj(st, "stringio", "sio", __node__=I.node_of(args[0], st) if args else self.const(""), parts=I.new_list(st, [], key="sio"))
        if name.endswith("ElementTree.parse") or name.endswith("ElementTree.fromstring") or name.endswith("ElementTree.XML") or name.endswith("ElementTree.iterparse"): return self.xml_parse(name, args, st)
        if name.startswith("itertools."): return self.call_itertools(name[10:], args, kw, st)
        if name == "functools.partial": return self.ext_obj(st, "functools.partial", "partial", func=args[0], args=TupleV(args[1:]), kw=I.alloc(st, DictO(dict(kw)), "pkw"))
        if name == "functools.reduce":
            acc = args[2] if len(args) > 2 else None
            sp = self.iterate(args[1], st, self._fake())
            if sp[0] == "exact":
                for x in sp[1]: acc = x if acc is None else I.call(args[0], [acc, x], {}, st)
                return acc
            return I.top("reduce")
        if name == "contextlib.suppress": return self.ext_obj(st, "contextlib.suppress", "supp", args=TupleV(args))
        if name in ("contextlib.nullcontext",): return self.ext_obj(st, name, "ctx")
        if name == "contextlib.ExitStack": return self.ext_obj(st, name, "ctx")
        if name.split(".")[0] in ("warnings", "logging", "traceback", "sys"):
            if name.startswith("warnings.warn"): I.event("warn", st, args=args)
            return self.const(None) if not name.endswith("getLogger") else self.ext_obj(st, "logging.Logger", "log")
        if root == "typing" or root == "typing_extensions":
            s = name.split(".")[-1]
            if s == "cast": return args[1]
            if s in ("TypeVar", "NewType", "NamedTuple"): return ExtV("typing.Any")
            return args[0] if args else ExtV(name)
        if name == "tabulate.tabulate" or name.startswith("tabulate"): return g.mk("call:tabulate", [I.node_of(a, st) for a in args], None, (), "s")
        if name.startswith("tqdm"): return self.ext_obj(st, "tqdm", "tqdm", it=args[0] if args else kw.get("iterable", self.const(None)))
        if name.startswith("torch_geometric"): return self.call_pyg(name, args, kw, st)
        if name.startswith("math."):
            s = name[5:]
            n = I.node_of(args[0], st)
            if n.const is not NO:
                import math
                try: return self.const(getattr(math, s)(*[I.node_of(a, st).const for a in args]))
                except Exception: pass
            if s in ("isclose",): return g.mk("isclose", [I.node_of(a, st) for a in args[:2]], ((), tuple((k, self.ckey(v)) for k, v in sorted(kw.items()))), (), "b")
            if s in ("sqrt", "exp", "log", "sin", "cos", "tan", "floor", "ceil", "fabs"):
                if s in ("sqrt", "log"): I.may_raise(st, "ValueError", "math domain error")
                r = self.arr_fn(s, [n], {}, st, "np")
                return g.mk("cast", [self.arr(r, st)], "i", (), "i") if s in ("floor", "ceil") else r
            if s in ("prod", "fsum", "dist", "hypot", "gcd", "pow"): return g.mk("call:math." + s, [I.node_of(a, st) for a in args], None, (), "f")
            return g.mk("call:math." + s, [I.node_of(a, st) for a in args], None, (), "b" if s.startswith("is") else "f")
        if name.startswith("collections."):
            s = name.split(".")[-1]
            if s == "OrderedDict": return self.call_builtin("dict", args, kw, st)
            if s == "deque": return self.call_builtin("list", args, kw, st)
            if s in ("defaultdict",): return I.alloc(st, DictO({}, None, None, True), "defaultdict")
            if s == "Counter":
                sp = self.iterate(args[0], st, self._fake()) if args else ("exact", [])
                k = None
                for x in (sp[1] if sp[0] == "exact" else [sp[1](st) if callable(sp[1]) else sp[1]]): k = I.join_val(k, x)
                if k is None: return I.alloc(st, DictO({}), "counter")
                return I.alloc(st, DictO({}, k, g.mk("call:count", [I.node_of(args[0], st)], None, (), "i"), False), "counter")
            if s == "namedtuple": return ExtV("collections.namedtuple." + str(self.ckey(args[0])))
        if name.startswith("operator."):
            s = name[9:]
            m = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "matmul": "MatMult", "mod": "Mod", "pow": "Pow", "floordiv": "FloorDiv"}
            if s in m: return I.binop(m[s], args[0], args[1], st)
            c = {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "is_": "Is", "is_not": "IsNot"}
            if s in c: return I.compare(c[s], args[0], args[1], st)
            if s == "itemgetter": return self.ext_obj(st, "operator.itemgetter", "ig", args=TupleV(args))
            if s == "attrgetter": return self.ext_obj(st, "operator.attrgetter", "ag", args=TupleV(args))
            if s == "getitem": return I.getitem(args[0], args[1], st)
            if s == "neg": return self.unop("USub", args[0], st)
        if name.startswith("re."):
            n = [I.node_of(a, st) for a in args]
            if name in ("re.compile",): return self.ext_obj(st, "re.Pattern", "re", __node__=n[0])
            return self.re_call(name[3:], n, st)
        I.note("opaque", name)
        for a in args:
            if isinstance(a, Ref): I.event("escape", st, val=a, to=name)
        return self.opaque("call:" + name, [I.node_of(a, st) for a in args] + [I.node_of(v, st) for v in kw.values()], st, attr=tuple(kw))

    def re_call(self, s, ns, st):
        g = self.g
        if s in ("match", "search", "fullmatch"): return Union([self.const(None), self.ext_obj(st, "re.Match", "m", __node__=g.mk("re:" + s, ns, None, (), "o"))])
        if s in ("sub",): return g.mk("re:sub", ns, None, (), "s")
        if s in ("split", "findall"): 
            b = g.mk("re:" + s, ns)
            return self.I.new_list(st, None, g.mk("anyelem", [b], None, (), "s"), new_sym(f"~sp{b.id}", 1 if s == "split" else 0), key="re")
        return g.mk("re:" + s, ns)

    def rand_arr(self, name, args, kw, st):
        sh = None
        if name.endswith(("rand", "randn")): 
            try: sh = self.shape_arg(args, st)
            except Exception: sh = None
        elif name.endswith(("_like",)): sh = self.arr(args[0], st).shape
        elif kw.get("size") is not None: sh = self.shape_arg([kw["size"]], st)
        n = self.g.new("random", [self.I.node_of(a, st) for a in args], name, NO, sh, "f")
        return self.I.new_arr(st, n, "rand", None, "torch" if name.startswith("torch") else "np")

    # ------------------------------------------------------------------ builtins
    def call_builtin(self, name, args, kw, st):
        from .interp import BUILTIN_EXC
        I, g = self.I, self.g
        if name in BUILTIN_EXC: return ExcV(ExtV("builtins." + name), I.cur, tuple(args))
        m = getattr(self, "b_" + name, None)
        if m is not None:
            I.consumers.append(name)
            try: return m(args, kw, st)
            finally: I.consumers.pop()
        I.note("opaque", "builtins." + name)
        return I.top("builtins." + name)

    def b_len(self, args, kw, st):
        I, g = self.I, self.g
        v = args[0]
        if isinstance(v, Union):
            r, ok = None, False
            for x in sorted(v.vals, key=repr):
                try: r = I.join_val(r, self.b_len([x], {}, st)); ok = True
                except DeadFlowT: pass
            if not ok: raise DeadFlowT()
            return r
        o = I.obj(v, st)
        if isinstance(o, InstO):
            if isinstance(o.cls, ClassV):
                m, _ = o.cls.lookup("__len__")
                if m is not None: return I.call_func(m, [v], {}, st)
                I.must_raise(st, "TypeError", f"object of type {o.cls.name} has no len()")
            if "items" in o.fields: return self.b_len([o.fields["items"]], {}, st)
            if o.cls.name == "tqdm": return self.b_len([o.fields["it"]], {}, st)
            if o.cls.name.endswith("ElementTree.Element"): return g.dim(st.norm(self.xml_len(o)))
            return g.mk("len", [I.node_of(v, st)], None, (), "i")
        if isinstance(o, ListO) and o.kind in ("iter", "zip", "enum"): I.must_raise(st, "TypeError", "object has no len()")
        if isinstance(v, Node):
            if v.dt == "s" or (v.const is not NO and isinstance(v.const, str)): return g.dim(st.norm(self.strlen(v)))
            if v.shape == () and v.dt in ("i", "f", "b", "N"): I.must_raise(st, "TypeError", "object has no len()")
            if v.shape: return g.dim(st.norm(v.shape[0]))
            s = new_sym(f"~len{v.id}", 0)
            return g.dim(st.norm(s))
        if isinstance(o, ArrO):
            n = I.content(st, v)
            if n.shape == (): I.must_raise(st, "TypeError", "len() of unsized object")
            if n.shape is None: return g.dim(new_sym(f"~len{n.id}", 0))
            return g.dim(st.norm(n.shape[0]))
        d = self.length(v, st)
        if d is not None: return g.dim(st.norm(d))
        if isinstance(o, (ListO, DictO)):
            return g.mk("len", [I.node_of(v, st)], None, (), "i")
        if isinstance(v, (FuncV, BoundV, ExtV, ClassV)): I.must_raise(st, "TypeError", "object has no len()")
        return I.top("len", shape=(), dt="i")

    def b_range(self, args, kw, st):
        I = self.I
        ns = [I.node_of(a, st) for a in args]
        for n in ns:
            if n.dt in ("f", "s", "N"): I.must_raise(st, "TypeError", "range() arguments must be integers")
        lo = ns[0] if len(ns) > 1 else self.const(0)
        hi = ns[1] if len(ns) > 1 else ns[0]
        step = ns[2] if len(ns) > 2 else self.const(1)
        iv = lambda n: st.norm(n.ival) if n.ival is not None else None
        l, h, s = iv(lo), iv(hi), iv(step)
        if all(x is not None and x.is_const() for x in (l, h, s)):
            if s.value() == 0: I.must_raise(st, "ValueError", "range() arg 3 must not be zero")
            r = range(l.value(), h.value(), s.value())
            if len(r) <= 130: return I.new_list(st, [self.const(i) for i in r], key="range")
        if s is not None and s == D1:
            if h is not None and l is not None:
                d = h - l
                sg = dim_sign(d, st.mins)
                ln = d if sg in ("+", ">=", "0") else (D0 if sg in ("-", "<=") else new_sym(("rng", d)))
            else: ln = new_sym(f"~d{hi.id}" if l == D0 else ("rng", hi.id, lo.id))
            return I.new_list(st, None, None, ln, kind="range", key="range", src=(l if l is not None else new_sym(f"~d{lo.id}"), D1))
        ln = new_sym(("rngs", l, h, s, hi.id, step.id))
        r = I.new_list(st, None, None, ln, kind="range", key="range", src=(l if l is not None else new_sym(f"~d{lo.id}"), s if s is not None else new_sym(f"~d{step.id}", 1)))
        return r

    def b_zip(self, args, kw, st):
        I = self.I
        strict = kw.get("strict")
        strict = strict is not None and I.node_of(strict, st).const is True
        if any(isinstance(a, tuple) for a in args):
            I.note("zip-star")
            return I.top("zip*")
        return I.alloc(st, ListO(None, TupleV(args), None, "zip", strict), "zip")

    def b_enumerate(self, args, kw, st):
        I = self.I
        s = args[1] if len(args) > 1 else kw.get("start")
        n = I.node_of(s, st) if s is not None else self.const(0)
        return I.alloc(st, ListO(None, args[0], None, "enum", n.ival), "enum")

    def b_iter(self, args, kw, st):
        I = self.I
        o = I.obj(args[0], st)
        if isinstance(o, InstO) and not isinstance(o.cls, ClassV): return args[0]
        if isinstance(o, ListO) and o.kind in ("iter", "zip", "enum"): return args[0]
        sp = self.iterate(args[0], st, self._fake())
        if sp[0] == "exact": return I.new_list(st, sp[1], kind="iter", key="iter")
        el = sp[1](st) if callable(sp[1]) else sp[1]
        return I.new_list(st, None, el, sp[2], kind="iter", key="iter", src=sp[3])

    def b_next(self, args, kw, st):
        I = self.I
        v = args[0]
        o = I.obj(v, st)
        if isinstance(o, InstO) and not isinstance(o.cls, ClassV) and o.cls.name == "file":
            at = self.scripted(v, st)
            if at is not None: return args[1] if len(args) > 1 and at >= len(self.file_text) else self.read_line(v, o, st, "next")
            if len(args) < 2: I.may_raise(st, "StopIteration", "end of file")
            ln = self.read_line(v, o, st, "next")
            return ln if len(args) < 2 else I.join_val(ln, args[1])
        if isinstance(o, InstO) and isinstance(o.cls, ClassV):
            m, _ = o.cls.lookup("__next__")
            if m is not None: return I.call_func(m, [v], {}, st)
        if isinstance(o, ListO) and o.kind == "iter":
            if o.items is not None:
                if not o.items:
                    if len(args) > 1: return args[1]
                    I.must_raise(st, "StopIteration", "empty iterator")
                st.heap[v.oid] = ListO(o.items[1:], kind="iter")
                return o.items[0]
            ln = st.norm(o.length) if o.length is not None else None
            sure = ln is not None and dim_sign(ln, st.mins) == "+"
            el = o.elem
            if el is None: el = I.top("next")
            if isinstance(el, Node) and isinstance(o.src, Node): el = self.subst(el, {o.src: self.const(0)})
            st.heap[v.oid] = ListO(None, o.elem, self.fresh_len("next") if not sure else ln - D1, "iter", None)
            if not sure:
                if len(args) > 1: return I.join_val(el, args[1])
                I.may_raise(st, "StopIteration", "iterator may be empty")
            return el
        if isinstance(o, ListO) and o.kind == "list": I.must_raise(st, "TypeError", "'list' object is not an iterator")
        sp = self.iterate(v, st, self._fake())
        if sp[0] == "exact":
            if not sp[1]:
                if len(args) > 1: return args[1]
                I.must_raise(st, "StopIteration", "empty iterator")
            return sp[1][0]
        if len(args) < 2: I.may_raise(st, "StopIteration", "iterator may be empty")
        el = sp[1](st) if callable(sp[1]) else sp[1]
        return el if len(args) < 2 else I.join_val(el, args[1])

    def b_isinstance(self, args, kw, st):
        I = self.I
        v = args[0]
        if isinstance(v, Union):
            rs = {self.isinstance_(x, args[1], st) for x in v.vals}
            if len(rs) == 1 and None not in rs: return self.const(rs.pop())
        else:
            r = self.isinstance_(v, args[1], st)
            if r is not None: return self.const(r)
        return self.g.mk("isinstance", [I.node_of(v, st)], repr(args[1]), (), "b")

    def b_issubclass(self, args, kw, st):
        return self.g.mk("issubclass", [self.I.node_of(a, st) for a in args], None, (), "b")

    def b_callable(self, args, kw, st):
        if isinstance(args[0], (FuncV, BoundV, ClassV)): return self.const(True)
        return self.g.mk("callable", [self.I.node_of(args[0], st)], None, (), "b")

    def b_hasattr(self, args, kw, st):
        I = self.I
        nm = self.ckey(args[1])
        if isinstance(nm, str):
            I.colls.append({})
            try: I.getattr(args[0], nm, st.fork()); r = True
            except DeadFlowT: r = False
            c = I.colls.pop()
            if not c: return self.const(r)
            if not r: return self.const(False)
        return self.g.mk("hasattr", [I.node_of(args[0], st)], nm, (), "b")

    def b_getattr(self, args, kw, st):
        I = self.I
        nm = self.ckey(args[1])
        if not isinstance(nm, str): return I.top("getattr")
        if len(args) < 3: return I.getattr(args[0], nm, st)
        I.colls.append({})
        try: r = I.getattr(args[0], nm, st)
        except DeadFlowT: r = None
        c = I.colls.pop()
        if r is None: return args[2]
        return I.join_val(r, args[2]) if c else r

    def b_setattr(self, args, kw, st):
        nm = self.ckey(args[1])
        if isinstance(nm, str): self.I.setattr(args[0], nm, args[2], st)
        return self.const(None)

    def b_type(self, args, kw, st):
        I = self.I
        v = args[0]
        o = I.obj(v, st)
        if isinstance(o, InstO): return o.cls
        if isinstance(v, ExcV): return v.cls
        ts = None if isinstance(v, Union) else self.type_names(v, st)
        if ts and len(ts) == 1:
            t = next(iter(ts))
            return ExtV(t if "." in t else "builtins." + t)
        return I.top("type")

    def num_conv(self, v, name, st):
        """float()/int() on a value"""
        I, g = self.I, self.g
        if isinstance(v, Union):
            r, ok = None, False
            for x in sorted(v.vals, key=repr):
                try: r = I.join_val(r, self.num_conv(x, name, st)); ok = True
                except DeadFlowT: pass
            if not ok: raise DeadFlowT()
            return r
        o = I.obj(v, st)
        dt = "f" if name == "float" else "i"
        if isinstance(v, TupleV) or isinstance(o, (ListO, DictO)): I.must_raise(st, "TypeError", f"{name}() argument must be a string or a number")
        n = self.arr(v, st) if isinstance(o, ArrO) else I.node_of(v, st)
        if isinstance(o, InstO) and "__node__" not in o.fields: I.must_raise(st, "TypeError", f"{name}() argument must be a string or a number")
        if n.dt == "N": I.must_raise(st, "TypeError", f"{name}() argument must not be None")
        if n.dt == "s":
            if n.const is not NO:
                try: return self.const((float if name == "float" else int)(n.const))
                except ValueError: I.must_raise(st, "ValueError", f"could not convert string to {name}")
            if not (n.op == "fmt" and n.args[0].dt in ("i", "f")): I.may_raise(st, "ValueError", f"could not convert string to {name}")
            return g.mk(name + "str", [n], None, (), dt)
        if n.dt == "c": I.must_raise(st, "TypeError", f"{name}() argument must not be complex")
        if n.shape is not None and n.shape != ():
            t = self.numel(n)
            sg = dim_sign(st.norm(t) - D1, st.mins)
            if sg in ("+", "-"): I.must_raise(st, "TypeError", "only length-1 arrays can be converted")
            if sg != "0": I.may_raise(st, "TypeError", "only length-1 arrays can be converted")
            n = g.mk("index", [n], tuple(("c", 0) for _ in n.shape), (), n.dt)
        if n.dt is None or n.op in ("pyobj",): I.may_raise(st, "TypeError", f"{name}() argument") if n.op == "pyobj" else None
        if n.const is not NO and isinstance(n.const, (int, float)):
            try: return self.const((float if name == "float" else int)(n.const))
            except Exception: pass
        if dt == "i":
            if n.dt in ("i", "b"): return n
            return g.mk("cast", [n], "i", (), "i")
        if n.dt == "f": return n
        return g.mk("cast", [n], "f", (), "f")

    def b_float(self, args, kw, st): return self.num_conv(args[0], "float", st) if args else self.const(0.0)
    def b_int(self, args, kw, st):
        if len(args) > 1:
            self.I.may_raise(st, "ValueError", "invalid literal for int()")
            return self.g.mk("intstr", [self.I.node_of(a, st) for a in args], None, (), "i")
        return self.num_conv(args[0], "int", st) if args else self.const(0)

    def b_bool(self, args, kw, st):
        if not args: return self.const(False)
        t, n = self.I.truth(args[0], st)
        if t is not None: return self.const(t)
        return n if n.dt == "b" else self.g.mk("bool", [n], None, (), "b")

    def b_complex(self, args, kw, st): return self.g.mk("call:complex", [self.I.node_of(a, st) for a in args], None, (), "c")

    def b_str(self, args, kw, st):
        if not args: return self.const("")
        v = args[0]
        n = self.I.node_of(v, st)
        if n.dt == "s" and isinstance(v, Node): return n
        o = self.I.obj(v, st)
        if isinstance(o, InstO) and isinstance(o.cls, ClassV):
            m = o.cls.lookup("__str__")[0] or o.cls.lookup("__repr__")[0]
            if m is not None: return self.I.call_func(m, [v], {}, st)
        if isinstance(o, InstO) and o.cls.name == "pathlib.Path" if isinstance(o, InstO) and isinstance(o.cls, ExtV) else False: return n
        return self.fmt(v, "", -1, st)

    def b_ascii(self, args, kw, st): return self.fmt(args[0], "", 97, st)
    def b_repr(self, args, kw, st): return self.fmt(args[0], "", 114, st)
    def b_format(self, args, kw, st):
        sp = self.ckey(args[1]) if len(args) > 1 else ""
        return self.fmt(args[0], sp if isinstance(sp, str) else None, -1, st)
    def b_chr(self, args, kw, st): return self.g.mk("call:chr", [self.I.node_of(args[0], st)], None, (), "s")
    def b_ord(self, args, kw, st): return self.g.mk("call:ord", [self.I.node_of(args[0], st)], None, (), "i")
    def b_print(self, args, kw, st):
        f = kw.get("file")
        if f is not None and not self.is_none(f):
            o = self.I.obj(f, st)
            parts = [self.b_str([a], {}, st) for a in args]
            s = []
            sep = self.I.node_of(kw["sep"], st) if "sep" in kw else self.const(" ")
            for i, p in enumerate(parts):
                if i: s.append(sep)
                s.append(self.I.node_of(p, st))
            s.append(self.I.node_of(kw["end"], st) if "end" in kw else self.const("\n"))
            self.write(f, o, self.concat_str(s), st)
        return self.const(None)

    def coll(self, args, st, kind):
        I = self.I
        if not args: return I.new_list(st, [], kind=kind, key=kind)
        v = args[0]
        if isinstance(v, Union):
            r, ok = None, False
            for x in sorted(v.vals, key=repr):
                try: r = I.join_val(r, self.coll([x], st, kind)); ok = True
                except DeadFlowT: pass
            if not ok: raise DeadFlowT()
            return r
        o = I.obj(v, st)
        sp = self.iterate(v, st, self._fake())
        if sp[0] == "exact":
            items = list(sp[1])
            if kind == "set":
                ks = [self.ckey(x) for x in items]
                if NO not in ks:
                    seen, out = set(), []
                    for k, x in zip(ks, items):
                        if k not in seen: seen.add(k); out.append(x)
                    return I.new_list(st, out, kind=kind, key=kind)
                e = None
                for x in items: e = I.join_val(e, x)
                if not items: return I.new_list(st, [], kind=kind, key=kind)
                return I.new_list(st, None, e, self.fresh_len("set", 1 if items else 0), kind=kind, key=kind)
            if kind == "tuple": return TupleV(items)
            return I.new_list(st, items, kind=kind, key=kind)
        el = sp[1](st) if callable(sp[1]) else sp[1]
        if kind == "set":
            n = I.node_of(v, st)
            mn = 1 if sp[2] is not None and dim_sign(st.norm(sp[2]), st.mins) == "+" else 0
            ln = new_sym(f"~set{n.id}", 0)
            if mn: st.mins[next(iter(ln.syms()))] = 1
            return I.new_list(st, None, el, ln, kind="set", key="set")
        ln = sp[2]
        if ln is None: ln = new_sym(f"~cl{I.node_of(v, st).id}", 0)
        return I.new_list(st, None, el, ln, kind="list", key=kind, src=sp[3])

    def b_list(self, args, kw, st): return self.coll(args, st, "list")
    def b_tuple(self, args, kw, st): return self.coll(args, st, "tuple") if args else TupleV([])
    def b_set(self, args, kw, st): return self.coll(args, st, "set")
    def b_frozenset(self, args, kw, st): return self.coll(args, st, "set")

    def b_dict(self, args, kw, st):
        I = self.I
        d = DictO()
        if args:
            o = I.obj(args[0], st)
            if isinstance(o, DictO): d = DictO(o.items, o.key, o.val, o.complete, o.length)
            else:
                r = I.alloc(st, d, "dict")
                sp = self.iterate(args[0], st, self._fake())
                for x in (sp[1] if sp[0] == "exact" else [sp[1](st) if callable(sp[1]) else sp[1]]):
                    k, v = self.unpack(x, 2, st)
                    self.setitem(r, k, v, st, quiet=True)
                d = st.heap[r.oid]
                if sp[0] != "exact" and d.complete: d = DictO(d.items, I.top("key"), I.join_val(None, next(iter(d.items.values()), None)), False)
        items = dict(d.items); items.update(kw)
        return I.alloc(st, DictO(items, d.key, d.val, d.complete), "dict")

    def in_order(self, items, kw, st):
        """Items sorted by constant keys, or None."""
        I, key, rev = self.I, kw.get("key"), kw.get("reverse")
        rev = False if rev is None else self.ckey(rev)
        ks = [self.ckey(x) if key is None or self.is_none(key) else self.ckey(I.call(key, [x], {}, st)) for x in items]
        if any(k is NO for k in ks) or not isinstance(rev, (bool, int)): return None
        try: return [items[i] for i in sorted(range(len(ks)), key=lambda i: ks[i], reverse=bool(rev))]
        except TypeError: return None

    def b_sorted(self, args, kw, st):
        I = self.I
        sp = self.iterate(args[0], st, self._fake())
        if sp[0] == "exact":
            its = self.in_order(sp[1], kw, st)
            if its is not None: return I.new_list(st, its, key="sorted")
            if len(sp[1]) <= 1: return I.new_list(st, sp[1], key="sorted")
            e = None
            for x in sp[1]: e = I.join_val(e, x)
            ln = Dim.const(len(sp[1]))
        else: e, ln = (sp[1](st) if callable(sp[1]) else sp[1]), sp[2]
        if "key" in kw and not self.is_none(kw["key"]): I.call(kw["key"], [e], {}, st)
        if isinstance(e, Node): e = self.g.mk("sortedelem", [e], None, e.shape, e.dt)
        return I.new_list(st, None, e, ln, key="sorted")

    def b_reversed(self, args, kw, st):
        I = self.I
        sp = self.iterate(args[0], st, self._fake())
        if sp[0] == "exact": return I.new_list(st, list(sp[1])[::-1], kind="iter", key="rev")
        e = sp[1](st) if callable(sp[1]) else sp[1]
        if isinstance(e, Node) and isinstance(sp[3], Node) and sp[2] is not None:
            idx2 = self.idx_leaf(self._fake(), sp[2])
            e2 = self.subst(e, {sp[3]: self.g.mk("rev", [idx2], sp[2], (), "i")})
            return I.new_list(st, None, e2, sp[2], kind="iter", key="rev", src=idx2)
        return I.new_list(st, None, e, sp[2], kind="iter", key="rev")

    def minmax(self, name, args, kw, st):
        I, g = self.I, self.g
        if len(args) == 1:
            o = I.obj(args[0], st)
            if isinstance(o, ArrO): return self.arr_fn(name, args, {}, st, o.lib)
            sp = self.iterate(args[0], st, self._fake())
            if sp[0] == "exact": vals = list(sp[1])
            else:
                if "default" not in kw and (sp[2] is None or dim_sign(st.norm(sp[2]), st.mins) != "+"): I.may_raise(st, "ValueError", f"{name}() of an empty sequence")
                n = self.arr(args[0], st) if not isinstance(args[0], Node) else args[0]
                el = sp[1](st) if callable(sp[1]) else sp[1]
                if isinstance(el, Node):
                    r = g.mk(name + "of", [I.node_of(args[0], st)], None, el.shape, el.dt)
                    return r if "default" not in kw else I.join_val(r, kw["default"])
                return el
            if not vals:
                if "default" in kw: return kw["default"]
                I.must_raise(st, "ValueError", f"{name}() of an empty sequence")
        else: vals = list(args)
        if "key" in kw:
            e = None
            for x in vals: e = I.join_val(e, x)
            return e
        ns = [I.node_of(v, st) for v in vals]
        if any(n.dt == "N" for n in ns) and len(ns) > 1: I.must_raise(st, "TypeError", "unorderable types")
        if len({n.id for n in ns}) == 1: return ns[0]
        if all(n.const is not NO for n in ns):
            try: return self.const((min if name == "min" else max)(n.const for n in ns))
            except TypeError: pass
        # decide by dims
        if all(n.ival is not None for n in ns):
            best = ns[0]
            ok = True
            for n in ns[1:]:
                s = dim_sign(st.norm(best.ival) - st.norm(n.ival), st.mins)
                if s in ("+", ">=", "0"): best = n if name == "min" else best
                elif s in ("-", "<="): best = best if name == "min" else n
                else: ok = False; break
            if ok: return best
        dts = {n.dt for n in ns}
        dt = dts.pop() if len(dts) == 1 else None
        r = g.mk("call:" + ("minimum" if name == "min" else "maximum"), sorted(ns, key=lambda n: n.id), None, (), dt)
        if dt == "i" and r.ival is None: r.ival = new_sym(("mm", name, tuple(n.id for n in ns)), 0)
        if dt == "i": r.meta = {"le": [n for n in ns if n.ival is not None]} if name == "min" else r.meta
        return r

    def b_min(self, args, kw, st): return self.minmax("min", args, kw, st)
    def b_max(self, args, kw, st): return self.minmax("max", args, kw, st)

    def b_sum(self, args, kw, st):
        I, g = self.I, self.g
        start = args[1] if len(args) > 1 else kw.get("start", self.const(0))
        o = I.obj(args[0], st)
        sp = self.iterate(args[0], st, self._fake())
        if sp[0] == "exact":
            r = start
            for x in sp[1]: r = I.binop("Add", r, x, st)
            return r
        el = sp[1](st) if callable(sp[1]) else sp[1]
        if isinstance(el, Node) and el.dt == "s": I.must_raise(st, "TypeError", "unsupported operand types for +: int and str")
        if isinstance(el, Node) and el.dt == "N": I.must_raise(st, "TypeError", "unsupported operand types for +")
        if isinstance(el, Ref) and isinstance(I.obj(el, st), ListO):
            return I.new_list(st, None, I.obj(el, st).elem, self.fresh_len("sumlist"), key="sum")
        e = self.arr(el, st) if isinstance(el, (Node, Ref)) else I.node_of(el, st)
        idx = sp[3] if isinstance(sp[3], Node) else g.leaf(("sumidx", I.cur), (), "i")
        sh = (sp[2] if sp[2] is not None else new_sym(("sum", e.id)),) + e.shape if e.shape is not None else None
        stk = g.mk("stack", [e, idx], None, sh, e.dt)
        r = self.reduce("sum", stk, (0,), False, st)
        if e.dt == "i" and r.ival is None and e.shape == (): r.ival = new_sym(("sumi", r.id), 0)
        if not (isinstance(start, Node) and start.const == 0): r = self.elem("Add", self.arr(start, st), r, st)
        return self.wrap(r, st, "sum")

    def b_abs(self, args, kw, st):
        v = args[0]
        o = self.I.obj(v, st)
        return self.arr_fn("abs", [v], {}, st, o.lib if isinstance(o, ArrO) else "np")

    def b_round(self, args, kw, st):
        n = self.I.node_of(args[0], st)
        if len(args) > 1: return self.g.mk("u:rounded", [n, self.I.node_of(args[1], st)], None, n.shape, n.dt)
        return self.g.mk("cast", [self.g.mk("u:rint", [n], None, n.shape, "f")], "i", (), "i")

    def b_pow(self, args, kw, st): return self.I.binop("Pow", args[0], args[1], st)
    def b_divmod(self, args, kw, st): return TupleV([self.I.binop("FloorDiv", args[0], args[1], st), self.I.binop("Mod", args[0], args[1], st)])

    def anyall(self, name, args, st):
        I, g = self.I, self.g
        v = args[0]
        o = I.obj(v, st)
        if isinstance(o, ArrO):
            return self.arr_fn(name, args, {}, st, o.lib)
        sp = self.iterate(v, st, self._fake())
        if sp[0] == "exact":
            ts, ns = [], []
            for x in sp[1]:
                t, n = I.truth(x, st)
                if t is (name == "any"): return self.const(t)
                if t is None: ns.append(n)
            if not ns: return self.const(name == "all")
            return ns[0] if len(ns) == 1 else I.boolop_nodes("or" if name == "any" else "and", ns)
        el = sp[1](st) if callable(sp[1]) else sp[1]
        t, n = I.truth(el, st)
        if t is (name == "all"): return self.const(t)
        if t is not None:
            if sp[2] is not None and dim_sign(st.norm(sp[2]), st.mins) == "+": return self.const(t)
            n = self.const(t)
        # any(not x) == not all(x)
        sh = (sp[2] if sp[2] is not None else new_sym(("aa", n.id)),)
        if n.op == "not":
            r = g.mk("allof" if name == "any" else "anyof", [n.args[0]], None, (), "b")
            return I.not_(r)
        return g.mk(name + "of", [n], None, (), "b")

    def b_any(self, args, kw, st): return self.anyall("any", args, st)
    def b_all(self, args, kw, st): return self.anyall("all", args, st)

    def b_map(self, args, kw, st):
        I = self.I
        f = args[0]
        src = args[1] if len(args) == 2 else self.b_zip(args[1:], {}, st)
        res = I.new_list(st, [], kind="iter", key="map")
        def body(x):
            e = x.env.pop("%m")
            v = I.call(f, list(e.items) if len(args) > 2 else [e], {}, x)
            self.list_append(res, v, x)
            return x
        def bind(v, x): x.env["%m"] = v
        r = I.for_each(src, st.fork(), bind, body, [], self._fake())
        if r is None: raise DeadFlowT()
        I.become(st, r)
        st.env.pop("%m", None)
        return res

    def b_filter(self, args, kw, st):
        I = self.I
        sp = self.iterate(args[1], st, self._fake())
        el = None
        for x in (sp[1] if sp[0] == "exact" else [sp[1](st) if callable(sp[1]) else sp[1]]):
            el = I.join_val(el, x)
            if not self.is_none(args[0]): I.call(args[0], [x], {}, st)
        if el is None: return I.new_list(st, [], kind="iter", key="filter")
        return I.new_list(st, None, el, self.fresh_len("filter"), kind="iter", key="filter")

    def b_slice(self, args, kw, st):
        n = self.const(None)
        if len(args) == 1: return SliceV(n, args[0], n)
        return SliceV(args[0], args[1], args[2] if len(args) > 2 else n)

    def b_object(self, args, kw, st): return self.ext_obj(st, "builtins.object", "object")
    def b_vars(self, args, kw, st): return self.I.getattr(args[0], "__dict__", st)
    def b_property(self, args, kw, st): return PropV(args[0] if args else None, args[1] if len(args) > 1 else None)
    def b_staticmethod(self, args, kw, st): return args[0]
    def b_open(self, args, kw, st):
        I = self.I
        p = args[0]
        mode = args[1] if len(args) > 1 else kw.get("mode", self.const("r"))
        return self.open_file(p, mode, st, kw)

    # ------------------------------------------------------------------ files and paths
    def pathnode(self, v, st):
        return self.I.node_of(v, st)

    def mkpath(self, n, st):
        if n.op == "path": n = n.args[0]
        pn = self.g.mk("path", [n], None, (), "s")
        return self.I.alloc(st, InstO(ExtV("pathlib.Path"), {"__node__": pn}), ("path", n.id))

    def open_file(self, p, mode, st, kw=None):
        I = self.I
        if isinstance(p, Union):
            r, ok = None, False
            for x in sorted(p.vals, key=repr):
                try: r = I.join_val(r, self.open_file(x, mode, st, kw)); ok = True
                except DeadFlowT: pass
            if not ok: raise DeadFlowT()
            return r
        if isinstance(mode, Union): mode = I.node_of(mode, st)
        pn = self.pathnode(p, st)
        if self.kind(p, st) in ("list", "dict", "tuple", "arr", "none", "set"): I.must_raise(st, "TypeError", "expected str, bytes or os.PathLike object")
        modes = [mode] if mode.const is not NO else (list(mode.args) if mode.op == "phi" else [mode])
        ms = [m.const for m in modes if m.const is not NO]
        known = len(ms) == len(modes)
        I.event("open", st, path=pn, mode=mode, how="open", encoding=kw is not None and kw.get("encoding") is not None and not self.is_none(kw["encoding"]),
                enc=None if kw is None or kw.get("encoding") is None else I.node_of(kw["encoding"], st))
        if not known or any("r" in m for m in ms): I.may_raise(st, "FileNotFoundError", "no such file")
        if not known or any("x" in m for m in ms): I.may_raise(st, "FileExistsError", "file exists")
        if any(not set(m) <= set("rwxabt+") or not m for m in ms): I.must_raise(st, "ValueError", "invalid mode")
        more = {} if self.file_text is None or not known or not all(set(m) <= set("rt") for m in ms) else {"at": self.const(0)}
        return self.ext_obj(st, "file", ("file", pn.id), path=pn, mode=mode, pos=self.const(0), __node__=self.g.mk("file", [pn, mode], I.cur), **more)

    # the lines of a scripted file, when a check plays a reader on one
    file_text = None

    def scripted(self, ref, st):
        """Position in the scripted file, or None when the file is arbitrary or the position unknown."""
        o = self.I.obj(ref, st) if self.file_text is not None else None
        if not isinstance(o, InstO) or isinstance(o.cls, ClassV) or getattr(o.cls, "name", "") != "file" or "at" not in o.fields: return None
        at = o.fields["at"]
        return at.const if isinstance(at, Node) and at.const is not NO and at.const is not None else None

    def move(self, ref, st, at):
        o = self.I.obj(ref, st)
        st.heap[ref.oid] = InstO(o.cls, {**o.fields, "at": self.const(at)}, o.tag)

    def rest(self, ref, st, at):
        """All remaining lines; the position is lost, as the consumer may stop early."""
        self.move(ref, st, None)
        return [self.const(x) for x in self.file_text[at:]]

    def read_line(self, v, o, st, how):
        at = self.scripted(v, st) if isinstance(v, Ref) else None
        if at is not None:
            if at >= len(self.file_text):
                if how != "readline": self.I.must_raise(st, "StopIteration", "end of file")
                return self.const("")
            self.move(v, st, at + 1)
            return self.const(self.file_text[at])
        n = self.g.leaf(("line", self.I.ctx, self.I.cur, o.fields["__node__"].id), (), "s", {"nonempty": how in ("iter", "next")})
        if how in ("iter", "next"):
            self.g  # a line obtained by iteration has at least one character
            s = self.strlen(n); _SYM_MIN[next(iter(s.syms()))] = 1
        self.I.event("read", st, file=o.fields.get("path"), how=how, node=n)
        return n

    def write(self, ref, o, node, st):
        if node.dt in ("i", "f", "N", "b"): self.I.must_raise(st, "TypeError", "write() argument must be str")
        if isinstance(o, InstO) and getattr(o.cls, "name", "") == "stringio":
            self.list_append(o.fields["parts"], node, st); return
        self.I.event("write", st, file=ref.oid if isinstance(ref, Ref) else None, path=o.fields.get("path") if isinstance(o, InstO) else None, node=node,
                     loops=tuple(self.I.loopstack))

    # ------------------------------------------------------------------ XML
    def xml_parse(self, name, args, st):
        I = self.I
        p = self.pathnode(args[0], st) if not isinstance(I.obj(args[0], st), InstO) or I.obj(args[0], st).cls.name != "file" else I.obj(args[0], st).fields["path"]
        if self.kind(args[0], st) in ("list", "dict", "tuple", "none"): I.must_raise(st, "TypeError", "expected str, bytes or os.PathLike object")
        I.may_raise(st, "FileNotFoundError", "no such file")
        I.may_raise(st, "xml.etree.ElementTree.ParseError", "not well-formed XML")
        if name.startswith("defusedxml"): I.may_raise(st, "defusedxml.common.DefusedXmlException", "forbidden XML construct")
        I.event("open", st, path=p, mode=self.const("r"), how=name)
        n = self.g.mk("xmldoc", [p])
        if name.endswith(("fromstring", "XML")): return self.xml_elem(n, st, "root")
        return self.ext_obj(st, "xml.ElementTree", "doc", __node__=n, root=self.xml_elem(n, st, "root"))

    def xml_len(self, o):
        return new_sym(f"~xl{self.g.mk('xml:children', [o.fields['__node__']]).id}", 0)

    def xml_elem(self, n, st, key, keep=False):
        known = st.heap.get(self.xml_oids.get(n.id)) if keep else None
        if isinstance(known, InstO) and known.fields.get("__node__") is n: return Ref(self.xml_oids[n.id])
        r = self.I.alloc(st, InstO(ExtV("xml.etree.ElementTree.Element"), {"__node__": n}), ("xml", n.id))
        self.xml_oids[n.id] = r.oid
        return r

    def xml_method(self, s, o, name, args, kw, st):
        I, g = self.I, self.g
        n = o.fields["__node__"]
        path = self.ckey(args[0]) if args else (self.ckey(kw["path"]) if "path" in kw else None)
        a = [n] + [I.node_of(x, st) for x in args]
        if name == "find":
            e = g.mk("xml:find", a, None, (), "o")
            f = st.facts.get(("xmlnone", e.id))
            return Union([self.const(None), self.xml_elem(e, st, "find")])
        if name in ("iterfind", "findall", "iter", "getchildren"):
            b = g.mk("xml:" + ("findall" if name == "iterfind" else name), a)
            el = self.xml_elem(g.mk("anyelem", [b], None, (), "o"), st, name)
            return I.new_list(st, None, el, new_sym(f"~xl{b.id}", 0), kind="list" if name == "findall" else "iter", key=name)
        if name == "findtext":
            r = g.mk("xml:findtext", a, None, (), "s")
            d = args[1] if len(args) > 1 else self.const(None)
            return I.join_val(Union([r, d]) if not isinstance(d, Node) or d.dt == "N" else g.phi(r, d), r)
        if name == "get":
            r = g.mk("xml:get", a, None, (), "s")
            d = args[1] if len(args) > 1 else self.const(None)
            return Union([r, d])
        if name == "itertext":
            return I.new_list(st, None, g.mk("anyelem", [g.mk("xml:itertext", a)], None, (), "s"), self.fresh_len("it"), kind="iter", key="it")
        if name in ("items", "keys"): return I.new_list(st, None, I.top("xmlattr"), self.fresh_len("xi"), key="xi")
        return I.top("xml." + name)

    # ------------------------------------------------------------------ scipy, spglib
    def call_scipy(self, name, args, kw, st):
        I, g = self.I, self.g
        s = name.split(".")[-1]
        new = lambda n: self.wrap(n, st, s)
        A = lambda i, k, d=None: args[i] if len(args) > i else kw.get(k, d)
        if s in ("fft", "ifft", "rfft", "irfft", "dct"):
            n = self.arr(args[0], st)
            if A(1, "n") is None or self.is_none(A(1, "n")): 
                if n.shape is not None and n.shape and dim_sign(st.norm(n.shape[-1]), st.mins) != "+": I.may_raise(st, "ValueError", "fft of empty data")
                sh = n.shape
            else: sh = None
            if s == "rfft" and "fftpack" not in name and n.shape is not None: sh = n.shape[:-1] + (new_sym(("rfft", n.shape[-1])),)
            return new(g.mk("call:" + s, [n] + [I.node_of(a, st) for a in args[1:]], name, sh, "c"))
        if s in ("fftfreq", "rfftfreq"):
            k = I.node_of(A(0, "n"), st)
            d = st.norm(k.ival) if k.ival is not None else new_sym(f"~d{k.id}", 0)
            if s == "rfftfreq": d = new_sym(("rfft", d))
            if k.ival is None or dim_sign(d, st.mins) != "+": I.may_raise(st, "ZeroDivisionError", "fftfreq(0)") if k.ival is not None and False else None
            dd = I.node_of(A(1, "d", self.const(1.0)), st)
            return new(g.mk("call:fftfreq", [k, dd], name, (d,), "f"))
        if s in ("correlate", "convolve", "fftconvolve", "oaconvolve"):
            a, b = self.arr(args[0], st), self.arr(args[1], st)
            mode = self.ckey(A(2, "mode", self.const("full")))
            if a.shape is not None and b.shape is not None and len(a.shape) != len(b.shape): I.must_raise(st, "ValueError", "in1 and in2 should have the same dimensionality")
            sh = None
            if a.shape is not None and b.shape is not None:
                if mode == "same": sh = a.shape
                elif mode == "full": sh = tuple(x + y - D1 for x, y in zip(a.shape, b.shape))
            extra = tuple(sorted((k, str(self.ckey(v))) for k, v in kw.items() if k != "mode"))
            return new(g.mk("call:" + s, [a, b], (mode, extra), sh, "f"))
        if s in ("make_interp_spline", "CubicSpline", "interp1d", "BSpline", "UnivariateSpline"):
            x = self.arr(A(0, "x"), st); y = self.arr(A(1, "y"), st)
            k = A(2, "k", self.const(3))
            kn = I.node_of(k, st)
            if kn.dt in ("f",) and False: I.must_raise(st, "TypeError", "k")
            I.may_raise(st, "ValueError", s)
            sh = None
            return self.ext_obj(st, "scipy.interpolate.BSpline", s, __node__=g.mk("spline", [x, y, kn] + [I.node_of(v, st) for kk, v in sorted(kw.items()) if kk not in ("k", "x", "y")], (name, tuple(sorted(kk for kk in kw if kk not in ("k", "x", "y")))), None, "o", meta={"yshape": y.shape}))
        if name.startswith("scipy.constants"): return I.top(name, shape=(), dt="f")
        if s in ("norm", "inv", "solve", "det", "eigh", "eigvalsh", "eig"):
            r = self.arr_fn(s, list(args), dict(kw), st, "np")
            if r is not None: return r
        I.note("opaque", name)
        return I.new_arr(st, g.mk("call:" + name, [I.node_of(a, st) for a in args] + [I.node_of(v, st) for v in kw.values()], tuple(kw)), "opaque" + s)

    def call_spglib(self, name, args, kw, st):
        I, g = self.I, self.g
        cell = args[0] if args else kw["cell"]
        items = list(cell.items) if isinstance(cell, TupleV) else None
        extra = [I.node_of(a, st) for a in args[1:]] + [I.node_of(v, st) for _, v in sorted(kw.items()) if _ != "cell"]
        if items is None or len(items) < 3: 
            return Union([self.const(None), I.top("spglib")])
        ns = [self.arr(x, st) for x in items]
        base = g.mk("spglib", ns + extra, tuple(sorted(k for k in kw if k != "cell")))
        r = new_sym(f"~ops{base.id}", 1)
        na = ns[1].shape[0] if ns[1].shape else new_sym(f"~na{base.id}")
        d = DictO({"rotations": I.new_arr(st, g.mk("spg:rotations", [base], None, (r, Dim.const(3), Dim.const(3)), "i"), "rot"),
                   "translations": I.new_arr(st, g.mk("spg:translations", [base], None, (r, Dim.const(3)), "f"), "tr"),
                   "equivalent_atoms": I.new_arr(st, g.mk("spg:equivalent_atoms", [base], None, (na,), "i"), "eq")})
        return Union([self.const(None), I.alloc(st, d, "spg")])

    # ------------------------------------------------------------------ copy
    def do_copy(self, v, st, deep, memo=None):
        I = self.I
        memo = {} if memo is None else memo
        if isinstance(v, Union): return Union([self.do_copy(x, st, deep, memo) for x in v.vals])
        if isinstance(v, TupleV): return TupleV([self.do_copy(x, st, True, memo) for x in v.items], v.names) if deep else v
        if not isinstance(v, Ref): return v
        if v.oid in memo: return memo[v.oid]
        o = st.heap.get(v.oid)
        cc = lambda x: self.do_copy(x, st, True, memo) if deep else x
        key = ("copy", deep, v.oid)
        if isinstance(o, ArrO): 
            r = I.new_arr(st, I.content(st, v), key, None, o.lib); memo[v.oid] = r; return r
        if isinstance(o, InstO):
            if isinstance(o.cls, ClassV):
                m, _ = o.cls.lookup("__deepcopy__" if deep else "__copy__")
                if m is not None:
                    return I.call_func(m, [v] + ([I.alloc(st, DictO(), "memo")] if deep else []), {}, st)
            r = I.alloc(st, InstO(o.cls, {}, o.tag), key); memo[v.oid] = r
            st.heap[r.oid] = InstO(o.cls, {k: (x if k == "__node__" else cc(x)) for k, x in o.fields.items()}, o.tag)
            return r
        if isinstance(o, ListO):
            r = I.alloc(st, ListO([], kind=o.kind), key); memo[v.oid] = r
            if o.items is not None: st.heap[r.oid] = ListO([cc(x) for x in o.items], kind=o.kind)
            else: st.heap[r.oid] = ListO(None, cc(o.elem) if o.elem is not None else None, o.length, o.kind, o.src)
            return r
        if isinstance(o, DictO):
            r = I.alloc(st, DictO(), key); memo[v.oid] = r
            st.heap[r.oid] = DictO({k: cc(x) for k, x in o.items.items()}, o.key, cc(o.val) if o.val is not None else None, o.complete, o.length)
            return r
        return v

    # ------------------------------------------------------------------ itertools
    def call_itertools(self, s, args, kw, st):
        I = self.I
        sps = []
        if s in ("combinations", "permutations", "combinations_with_replacement"):
            k = self.ckey(args[1] if len(args) > 1 else kw.get("r", self.const(2)))
            sp = self.iterate(args[0], st, self._fake())
            if sp[0] == "exact" and isinstance(k, int) and len(sp[1]) <= 8:
                import itertools
                return I.new_list(st, [TupleV(x) for x in getattr(itertools, s)(sp[1], k)], kind="iter", key=s)
            el = None
            for x in (sp[1] if sp[0] == "exact" else [sp[1](st) if callable(sp[1]) else sp[1]]): el = I.join_val(el, x)
            mk = lambda j: self.g.mk("combelem", [el], j, el.shape, el.dt) if isinstance(el, Node) else el
            return I.new_list(st, None, TupleV([mk(j) for j in range(k if isinstance(k, int) else 2)]), self.fresh_len(s), kind="iter", key=s)
        if s == "product":
            rep = self.ckey(kw["repeat"]) if "repeat" in kw else 1
            sp = [self.iterate(a, st, self._fake()) for a in args] * (rep if isinstance(rep, int) else 1)
            if all(x[0] == "exact" for x in sp):
                import itertools
                r = list(itertools.product(*[x[1] for x in sp]))
                if len(r) <= 130: return I.new_list(st, [TupleV(x) for x in r], kind="iter", key=s)
            els = []
            for x in sp:
                if x[0] == "exact":
                    e = None
                    for y in x[1]: e = I.join_val(e, y)
                else: e = x[1](st) if callable(x[1]) else x[1]
                els.append(e)
            ln = D1
            for x in sp:
                t = Dim.const(len(x[1])) if x[0] == "exact" else x[2]
                ln = ln * t if ln is not None and t is not None else None
            return I.new_list(st, None, TupleV(els), ln, kind="iter", key=s)
        if s in ("chain", "chain.from_iterable"):
            srcs = args
            if s != "chain":
                sp = self.iterate(args[0], st, self._fake())
                if sp[0] != "exact":
                    sub = self.iterate(sp[1](st) if callable(sp[1]) else sp[1], st, self._fake())
                    e = None
                    for y in (sub[1] if sub[0] == "exact" else [sub[1](st) if callable(sub[1]) else sub[1]]): e = I.join_val(e, y)
                    return I.new_list(st, None, e, self.fresh_len("chain"), kind="iter", key=s)
                srcs = sp[1]
            sp = [self.iterate(a, st, self._fake()) for a in srcs]
            if all(x[0] == "exact" for x in sp): return I.new_list(st, [y for x in sp for y in x[1]], kind="iter", key=s)
            e, ln = None, D0
            for x in sp:
                for y in (x[1] if x[0] == "exact" else [x[1](st) if callable(x[1]) else x[1]]): e = I.join_val(e, y)
                t = Dim.const(len(x[1])) if x[0] == "exact" else x[2]
                ln = ln + t if ln is not None and t is not None else None
            return I.new_list(st, None, e, ln, kind="iter", key=s)
        if s == "islice":
            sp = self.iterate(args[0], st, self._fake())
            ks = [self.ckey(a) for a in args[1:]]
            if sp[0] == "exact" and NO not in ks: 
                import itertools
                return I.new_list(st, list(itertools.islice(sp[1], *ks)), kind="iter", key=s)
            return I.new_list(st, None, sp[1](st) if callable(sp[1]) else sp[1], self.fresh_len(s), kind="iter", key=s)
        if s == "count": return I.new_list(st, None, I.top("count", shape=(), dt="i"), None, kind="iter", key=s)
        if s == "repeat":
            n = I.node_of(args[1], st) if len(args) > 1 else None
            return I.new_list(st, None, args[0], n.ival if n is not None else None, kind="iter", key=s)
        if s in ("zip_longest",):
            return I.new_list(st, None, TupleV([I.join_val(self.const(None), self.iter_elem(a, st)) for a in args]), self.fresh_len(s), kind="iter", key=s)
        if s == "pairwise":
            e = self.iter_elem(args[0], st)
            return I.new_list(st, None, TupleV([e, e]), self.fresh_len(s), kind="iter", key=s)
        I.note("opaque", "itertools." + s)
        return I.new_list(st, None, I.top("itertools"), self.fresh_len(s), kind="iter", key=s)

    def iter_elem(self, v, st):
        sp = self.iterate(v, st, self._fake())
        if sp[0] == "exact":
            e = None
            for y in sp[1]: e = self.I.join_val(e, y)
            return e if e is not None else self.I.top("empty")
        return sp[1](st) if callable(sp[1]) else sp[1]

    # ------------------------------------------------------------------ torch
    def call_torch(self, name, short, args, kw, st):
        I, g = self.I, self.g
        if short == "get_default_dtype": return g.mk("call:get_default_dtype", [], None, (), "o")
        if short == "get_default_device": return g.mk("call:get_default_device", [], None, (), "o")
        if short == "device" : return self.ext_obj(st, "torch.device", "dev")
        if short == "Generator":
            return self.ext_obj(st, "torch.Generator", "gen", __node__=g.mk("torch:generator", [I.node_of(v, st) for v in kw.values()]))
        if short in TORCH_LAYERS and name.startswith("torch.nn"): return self.make_layer(short, args, kw, st)
        if short == "DataLoader":
            b = kw.get("batch_size", args[1] if len(args) > 1 else self.const(1))
            sh = kw.get("shuffle", args[2] if len(args) > 2 else self.const(False))
            if self.is_none(sh): sh = self.const(False)
            sn = I.node_of(sh, st)
            if sn.const is not False and "generator" not in kw: I.event("nondet", st, what="DataLoader(shuffle) without generator", node=None)
            I.event("loader", st, dataset=args[0] if args else kw.get("dataset"), batch_size=I.node_of(b, st), shuffle=sn, kw=tuple(sorted(kw)))
            f = {"dataset": args[0] if args else kw["dataset"], "batch_size": b, "shuffle": sh}
            for k in ("drop_last", "sampler", "batch_sampler", "generator", "collate_fn"):
                if k in kw: f[k] = kw[k]
            return self.ext_obj(st, "torch.utils.data.DataLoader", "loader", **f)
        if short in ("DistributedSampler", "RandomSampler", "SequentialSampler", "Subset", "TensorDataset", "random_split"): return self.opaque("call:" + name, [I.node_of(a, st) for a in args], st)
        if name == "torch.nn.Module": return self.ext_obj(st, "torch.nn.Module", "mod")
        if short == "is_tensor": return self.b_isinstance([args[0], ExtV("torch.Tensor")], {}, st)
        if short in ("manual_seed", "seed"): I.event("extset", st, name=name); return self.const(None)
        if short == "scatter" and False: pass
        if name.startswith("torch.nn.functional."):
            n = self.arr(args[0], st)
            return self.wrap(g.mk("call:" + name, [self.arr(a, st) for a in args], None, n.shape, "f"), st, short, "torch")
        return NotImplemented

    def make_layer(self, short, args, kw, st):
        I = self.I
        f = {"training": self.const(True)}
        key = ("layer", short, tuple(x.const if isinstance(x, Node) and x.const is not NO else 0 for x in args if isinstance(x, Node)))
        if short == "Sequential": f["items"] = I.new_list(st, list(args), key="seq")
        elif short == "ModuleList": f["items"] = self.coll(args, st, "list") if args else I.new_list(st, [], key="ml")
        else:
            for n, a in zip({"Linear": ("fin", "fout"), "Embedding": ("num", "fout"), "LayerNorm": ("fin",), "BatchNorm1d": ("fin",)}.get(short, ()), args): f[n] = a
            m = {"in_features": "fin", "out_features": "fout", "num_embeddings": "num", "embedding_dim": "fout", "normalized_shape": "fin", "num_features": "fin"}
            for k, v in kw.items():
                if k in m: f[m[k]] = v
        r = I.alloc(st, InstO(ExtV("torch.nn." + short), f), key)
        f["param"] = self.g.leaf(("param", r.oid), (), "o")
        st.heap[r.oid] = InstO(ExtV("torch.nn." + short), f)
        return r

    def layer_call(self, f, o, short, args, kw, st):
        I, g = self.I, self.g
        if short == "Sequential":
            x = args[0]
            sp = self.iterate(o.fields["items"], st, self._fake())
            if sp[0] == "exact":
                sctx = I.ctx
                for i, m in enumerate(sp[1]):
                    I.ctx = I.sub(("seq", f.oid, i))
                    try: x = I.call(m, [x], {}, st)
                    finally: I.ctx = sctx
                return x
            return I.top("Sequential")
        n = self.arr(args[0], st)
        sh = n.shape
        ival = lambda k: (I.node_of(o.fields[k], st).ival if k in o.fields else None)
        if short == "Linear":
            fi, fo = ival("fin"), ival("fout")
            if n.dt in ("i", "b"): I.must_raise(st, "RuntimeError", "expected floating point input")
            if sh and fi is not None:
                s = dim_sign(st.norm(sh[-1]) - st.norm(fi), st.mins)
                if s in ("+", "-"): I.must_raise(st, "RuntimeError", "mat1 and mat2 shapes cannot be multiplied")
            sh = sh[:-1] + (st.norm(fo) if fo is not None else new_sym(("lin", f.oid)),) if sh else None
        elif short == "Embedding":
            if n.dt == "f": I.must_raise(st, "RuntimeError", "Embedding expects integer indices")
            fo = ival("fout")
            sh = sh + (st.norm(fo) if fo is not None else new_sym(("emb", f.oid)),) if sh is not None else None
        elif short in ("LayerNorm", "BatchNorm1d"):
            fi = ival("fin")
            ax = -1 if short == "LayerNorm" else 1
            if sh and len(sh) > (1 if ax == 1 else 0) and fi is not None:
                s = dim_sign(st.norm(sh[ax]) - st.norm(fi), st.mins)
                if s in ("+", "-"): I.must_raise(st, "RuntimeError", "normalized_shape mismatch")
        tr = o.fields.get("training")
        if short == "BatchNorm1d":
            I.event("batchnorm", st, training=tr, oid=f.oid, node=n)
        return self.wrap(g.mk("nn:" + short, [n, o.fields.get("param")] if o.fields.get("param") is not None else [n],
                              (tr.const if short in ("BatchNorm1d", "Dropout") and isinstance(tr, Node) and tr.const is not NO else None), sh, "f"), st, ("layer", f.oid), "torch")

    def call_pyg(self, name, args, kw, st):
        I, g = self.I, self.g
        s = name.split(".")[-1]
        if s == "scatter":
            A = lambda i, k: args[i] if len(args) > i else kw.get(k)
            x, ix = self.arr(A(0, "src"), st), self.arr(A(1, "index"), st)
            dim = self.ckey(A(2, "dim")) if A(2, "dim") is not None else 0
            ds = A(3, "dim_size")
            red = self.ckey(A(4, "reduce")) if A(4, "reduce") is not None else "sum"
            dn = I.node_of(ds, st) if ds is not None else None
            d = st.norm(dn.ival) if dn is not None and dn.ival is not None else new_sym(("scat", ix.id))
            sh = (d,) + x.shape[1:] if x.shape and dim == 0 else None
            return self.wrap(g.mk("scatter", [x, ix] + ([dn] if dn is not None else []), (dim, red), sh, x.dt), st, s, "torch")
        if s == "ShiftedSoftplus": return self.make_layer(s, args, kw, st)
        if s == "reset": I.event("reset", st, obj=args[0]); return self.const(None)
        if s in ("triplets", "dimenet_triplets"):
            e = self.arr(args[0] if args else kw["edge_index"], st)
            nn = I.node_of(args[1] if len(args) > 1 else kw.get("num_nodes", self.const(None)), st)
            base = g.mk("triplets", [e, nn])
            E = e.shape[1] if e.shape is not None and len(e.shape) > 1 else new_sym(f"~E{base.id}")
            T = new_sym(f"~T{base.id}", 0)
            return TupleV([I.new_arr(st, g.mk("trip", [base], k, (E if k < 2 else T,), "i"), ("trip", k), None, "torch") for k in range(7)])
        I.note("opaque", name)
        return I.new_arr(st, g.mk("call:" + name, [I.node_of(a, st) for a in args]), "pyg" + s, None, "torch")

    # ------------------------------------------------------------------ instances of external classes
    def call_inst(self, f, o, args, kw, st):
        I, g = self.I, self.g
        if isinstance(o.cls, ClassV):
            I.must_raise(st, "TypeError", f"{o.cls.name} object is not callable")
        n = o.cls.name
        s = n.split(".")[-1]
        if n.startswith("torch.nn.") and s in TORCH_LAYERS: return self.layer_call(f, o, s, args, kw, st)
        if n == "scipy.interpolate.BSpline":
            x = self.arr(args[0], st)
            ys = (o.fields["__node__"].meta or {}).get("yshape")
            sh = x.shape + ys[1:] if x.shape is not None and ys is not None and len(ys) > 0 else None
            return self.wrap(g.mk("splineval", [o.fields["__node__"], x] + [I.node_of(a, st) for a in args[1:]], None, sh, "f"), st, "spl") if sh != () else I.new_arr(st, g.mk("splineval", [o.fields["__node__"], x], None, sh, "f"), "spl")
        if n == "functools.partial":
            kws = dict(I.obj(o.fields["kw"], st).items); kws.update(kw)
            return I.call(o.fields["func"], list(o.fields["args"].items) + list(args), kws, st)
        if n == "operator.itemgetter":
            r = [I.getitem(args[0], k, st) for k in o.fields["args"].items]
            return r[0] if len(r) == 1 else TupleV(r)
        if n == "torch.Loss":
            a, b = self.arr(args[0], st), self.arr(args[1], st)
            I.event("loss", st, out=a, target=b)
            return I.new_arr(st, g.mk("loss", [a, b], None, (), "f"), "loss", None, "torch")
        I.note("opaque", "call " + n)
        for a in args:
            if isinstance(a, Ref): I.event("escape", st, val=a, to=n)
        return self.opaque("call:" + n, [I.node_of(f, st)] + [I.node_of(a, st) for a in args], st)

    def iter_inst(self, v, o, st, node):
        I, g = self.I, self.g
        n = o.cls.name if not isinstance(o.cls, ClassV) else o.cls.name
        if n == "file":
            at = self.scripted(v, st)
            if at is not None: return ("exact", self.rest(v, st, at))
            idx = self.idx_leaf(node, None)
            return ("gen", lambda x: self.read_line(v, o, x, "iter"), None, idx)
        if n == "tqdm": return self.iterate(o.fields["it"], st, node)
        if n.endswith("ElementTree.Element"):
            b = g.mk("xml:children", [o.fields["__node__"]])
            idx = self.idx_leaf(node, new_sym(f"~xl{b.id}", 0))
            n = g.mk("iterelem", [b, idx], None, (), "o")
            return ("gen", lambda x: self.xml_elem(n, x, "child"), new_sym(f"~xl{b.id}", 0), idx)
        if n in ("torch.nn.ModuleList", "torch.nn.Sequential"): return self.iterate(o.fields["items"], st, node)
        if n == "torch.utils.data.DataLoader":
            ds = o.fields["dataset"]
            idx = self.idx_leaf(node, None)
            if I.batches is not None and ds in I.batches:
                name, count = I.batches[ds]
                gi, _ = I.obj(ds, st).cls.lookup("__getitem__")
                def fixed(k):
                    r = I.call_func(gi, [ds, g.leaf(("sampleidx", name), (), "i")], {}, st)
                    if not isinstance(r, TupleV): return I.top("batch")
                    bs = new_sym(("bs", name, k), 1)
                    out = []
                    for j, y in enumerate(r.items):
                        c = self.arr(y, st)
                        out.append(I.new_arr(st, g.mk("batch", [], (name, k, j), (bs,) + c.shape if c.shape is not None else None, c.dt), ("batch", name, k, j), None, "torch"))
                    return TupleV(out)
                I.event("loader-iter", st, name=name, loader=o)
                return ("exact", [fixed(k) for k in range(count)])
            dso = I.obj(ds, st)
            if not (isinstance(dso, InstO) and isinstance(dso.cls, ClassV)): return ("gen", I.top("batch"), None, idx)
            gi, _ = dso.cls.lookup("__getitem__")
            bs = new_sym(("bs", v.oid, node.lineno), 1)
            def elem(x):
                smp = self.idx_leaf(_FN(node.lineno, node.col_offset + 1), bs)
                fake = g.leaf(("sampleidx", v.oid), (), "i", {"trip": None})
                if fake.ival is None:
                    lnf, _ = dso.cls.lookup("__len__")
                    fake.ival = new_sym(("si", v.oid))
                I.colls.append({})
                try: r = I.call_func(gi, [ds, fake], {}, x)
                finally: I.colls.pop()
                def batch(y):
                    if isinstance(y, TupleV): return TupleV([batch(z) for z in y.items])
                    c = self.arr(y, x)
                    sh = (bs,) + c.shape if c.shape is not None else None
                    return I.new_arr(x, g.mk("batch", [c, smp], None, sh, c.dt), ("batch", c.id), None, "torch")
                r = batch(r)
                I.event("batch", x, loader=v.oid, dataset=ds)
                return r
            return ("gen", elem, None, idx)
        if "items" in o.fields: return self.iterate(o.fields["items"], st, node)
        if n.startswith("torch.nn.") or n in ("scipy.interpolate.BSpline", "torch.device", "pathlib.Path", "functools.partial"): I.must_raise(st, "TypeError", f"{n} is not iterable")
        if isinstance(o.cls, ClassV) and not any(x.name.startswith(("collections", "typing", "torch")) for x in o.cls.ext_bases()):
            I.must_raise(st, "TypeError", f"{n} object is not iterable")
        I.note("opaque", "iterate " + n)
        return ("gen", g.mk("anyelem", [I.node_of(v, st)]), None, self.idx_leaf(node, None))

    def inst_getitem(self, ob, o, ix, st):
        I, g = self.I, self.g
        n = o.cls.name
        if "items" in o.fields: return I.getitem(o.fields["items"], ix, st)
        if n.endswith("ElementTree.Element"):
            k = self.ckey(ix)
            if isinstance(k, int):
                room = st.norm(self.xml_len(o)) - Dim.const(k + 1) if k >= 0 else st.norm(self.xml_len(o)) + Dim.const(k)
                if dim_sign(room, st.mins) not in ("+", "0", ">="): I.may_raise(st, "IndexError", "child index out of range")
            elif not isinstance(ix, SliceV): I.may_raise(st, "IndexError", "child index out of range")
            if isinstance(ix, SliceV): 
                b = g.mk("xml:children", [o.fields["__node__"], I.node_of(ix, st)])
                return I.new_list(st, None, self.xml_elem(g.mk("anyelem", [b], None, (), "o"), st, "ch"), new_sym(f"~xl{b.id}", 0), key="xs")
            return self.xml_elem(g.mk("xml:child", [o.fields["__node__"], I.node_of(ix, st)], None, (), "o"), st, "child", keep=True)
        if isinstance(o.cls, ClassV) or n in ("file", "scipy.interpolate.BSpline", "functools.partial", "pathlib.Path"):
            I.must_raise(st, "TypeError", f"'{n}' object is not subscriptable")
        if n == "re.Match": return g.mk("re:group", [I.node_of(ob, st), I.node_of(ix, st)], None, (), "s")
        return g.mk("getitem", [I.node_of(ob, st), I.node_of(ix, st)])

    DUN = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow", "MatMult": "matmul", "BitAnd": "and", "BitOr": "or", "BitXor": "xor"}

    def inst_binop(self, op, a, b, st):
        I = self.I
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            o = I.obj(x, st)
            if isinstance(o, InstO) and isinstance(o.cls, ClassV):
                m, _ = o.cls.lookup(pre + self.DUN.get(op, "x") + "__")
                if m is not None: return I.call_func(m, [x, y], {}, st)
            if isinstance(o, InstO) and isinstance(o.cls, ExtV) and o.cls.name == "pathlib.Path" and op == "Div":
                na, nb = I.node_of(a, st), I.node_of(b, st)
                return self.mkpath(self.g.mk("path:join", [na, nb], None, (), "s"), st)
        oa, ob = I.obj(a, st), I.obj(b, st)
        if any(isinstance(o, InstO) and "__node__" in o.fields for o in (oa, ob)):
            return self.g.mk("call:binop" + op, [I.node_of(a, st), I.node_of(b, st)])
        I.must_raise(st, "TypeError", f"unsupported operand types for {op}")

    def inst_compare(self, op, a, b, st):
        I = self.I
        if op in ("Eq", "NotEq"):
            for x, y in ((a, b), (b, a)):
                o = I.obj(x, st)
                if isinstance(o, InstO) and isinstance(o.cls, ClassV):
                    m, _ = o.cls.lookup("__eq__")
                    if m is not None:
                        r = I.call_func(m, [x, y], {}, st)
                        if op == "Eq": return r
                        t, n = I.truth(r, st)
                        return self.const(not t) if t is not None else I.not_(n)
            if isinstance(a, Ref) and isinstance(b, Ref):
                oa, ob = I.obj(a, st), I.obj(b, st)
                if isinstance(oa, InstO) and isinstance(ob, InstO) and isinstance(oa.cls, ClassV) and isinstance(ob.cls, ClassV):
                    return self.const((a == b) == (op == "Eq"))
            if self.is_none(a) or self.is_none(b): return self.const(op == "NotEq")
            n = self.g.mk("cmp:==", self._ord([I.node_of(a, st), I.node_of(b, st)]), None, (), "b")
            return n if op == "Eq" else I.not_(n)
        return None

    def ext_inst_attr(self, ref, o, name, st):
        I, g = self.I, self.g
        n = o.cls.name
        node = o.fields.get("__node__")
        if n.endswith("ElementTree.Element"):
            if name == "text" or name == "tail":
                v = Union([self.const(None), g.mk("xml:" + name, [node], None, (), "s")])
                f = dict(o.fields); f[name] = v
                st.heap[ref.oid] = InstO(o.cls, f, o.tag)
                return v
            if name == "tag": return g.mk("xml:tag", [node], None, (), "s")
            if name == "attrib":
                return I.alloc(st, DictO({}, g.mk("anyelem", [g.mk("xml:attrib", [node])], None, (), "s"), g.mk("xml:attr", [node], None, (), "s"), False), ("attrib", node.id))
            return BoundV(ref, name)
        if n == "xml.ElementTree":
            return BoundV(ref, name)
        if n == "pathlib.Path":
            if name in ("name", "stem", "suffix"): return g.mk("path:" + name, [node], None, (), "s")
            if name == "parent": return self.mkpath(g.mk("path:parent", [node], None, (), "s"), st)
            return BoundV(ref, name)
        if n == "file" and name in ("name",): return o.fields["path"]
        if n == "file" and name == "closed": return g.mk("attr", [node], name, (), "b")
        if n == "scipy.interpolate.BSpline" and name in ("c", "t", "k", "x", "tck", "extrapolate", "axis"):
            return g.mk("attr", [node], name)
        if n in ("torch.nn.Linear", "torch.nn.Embedding", "torch.nn.LayerNorm", "torch.nn.BatchNorm1d") and name in ("weight", "bias", "running_mean", "running_var"):
            return I.new_arr(st, g.mk("attr", [o.fields["param"]], name, None, "f"), ("w", name, ref.oid), None, "torch")
        if name in ("__class__",): return o.cls
        if (o.tag or {}).get("strict") if isinstance(o.tag, dict) else False:
            I.must_raise(st, "AttributeError", f"{n} has no attribute {name}")
        return BoundV(ref, name)

    def inst_method(self, s, o, name, args, kw, st):
        I, g = self.I, self.g
        n = o.cls.name
        if n.endswith("ElementTree.Element"): return self.xml_method(s, o, name, args, kw, st)
        if n == "xml.ElementTree":
            if name == "getroot": return o.fields["root"]
            return self.xml_method(o.fields["root"], I.obj(o.fields["root"], st), name, args, kw, st)
        if n == "file":
            if name == "readline": return self.read_line(s, o, st, "readline")
            at = self.scripted(s, st)
            if at is not None and not args and name in ("read", "readlines"):
                ls = self.rest(s, st, at)
                self.move(s, st, len(self.file_text))
                return self.const("".join(x.const for x in ls)) if name == "read" else I.new_list(st, ls, None, None, key="rl")
            if name == "read": return g.leaf(("read", I.ctx, I.cur), (), "s")
            if name == "readlines":
                b = g.leaf(("readlines", I.ctx, I.cur), None, None)
                el = g.mk("anyelem", [b], None, (), "s")
                ss = self.strlen(el); _SYM_MIN[next(iter(ss.syms()))] = 1
                return I.new_list(st, None, el, new_sym(f"~rl{b.id}", 0), key="rl")
            if name == "write":
                self.write(s, o, I.node_of(args[0], st), st); return g.mk("len", [I.node_of(args[0], st)], None, (), "i")
            if name == "writelines":
                sp = self.iterate(args[0], st, self._fake())
                if sp[0] == "exact":
                    for x in sp[1]: self.write(s, o, I.node_of(x, st), st)
                else:
                    I.event("writelines", st, file=s.oid, path=o.fields.get("path"), val=args[0])
                    self.write(s, o, g.mk("joinlines", [I.node_of(args[0], st)], None, (), "s"), st)
                return self.const(None)
            if name in ("close", "flush", "__exit__"): return self.const(None)
            if name == "__enter__": return s
            if name == "truncate": I.event("write", st, file=s.oid, path=o.fields.get("path"), node=self.const(""), loops=()); return self.const(None)
            if name in ("seek", "tell", "fileno"): return I.top("file." + name, shape=(), dt="i")
            if name in ("readable", "writable"): return g.mk("call:" + name, [o.fields["__node__"]], None, (), "b")
        if n == "stringio":
            if name == "write": self.write(s, o, I.node_of(args[0], st), st); return self.const(0)
            if name == "getvalue": return self.call_str(self.const(""), "join", [o.fields["parts"]], {}, st)
        if n == "pathlib.Path":
            node = o.fields["__node__"]
            if name == "open": return self.open_file(s, args[0] if args else kw.get("mode", self.const("r")), st, kw)
            if name in ("stat", "lstat"):
                I.may_raise(st, "FileNotFoundError", "no such file")
                return g.mk("fs:stat", [node], "stat")
            if name in PATH_Q: return g.mk("fs:exists", [node], name, (), "b")
            if name in ("iterdir", "glob", "rglob", "owner", "group"):
                n2 = I.top("Path." + name); I.event("nondet", st, what="Path." + name, node=n2); return n2
            if name in ("write_text", "write_bytes"):
                I.event("open", st, path=node, mode=self.const("w"), how=name, encoding=name == "write_bytes" or "encoding" in kw or len(args) > 1)
                I.event("write", st, file=None, path=node, node=I.node_of(args[0], st), loops=tuple(I.loopstack)); return self.const(0)
            if name == "read_text":
                I.may_raise(st, "FileNotFoundError", "no such file")
                return g.leaf(("readtext", I.ctx, I.cur), (), "s") if self.file_text is None else self.const("".join(self.file_text))
            if name in PATH_W:
                I.event("fsop", st, what="Path." + name, args=[node] + [self.pathnode(a, st) for a in args]); return self.const(None)
            if name in PATH_P or name in ("__truediv__",):
                r = g.mk("path:" + name, [node] + [I.node_of(a, st) for a in args], None, (), "s")
                if name in ("resolve", "absolute", "expanduser"): r = node
                return self.mkpath(r, st) if name not in ("as_posix",) else r
            return I.top("Path." + name)
        if n == "tqdm":
            if name in ("update", "close", "set_description", "refresh", "set_postfix", "write", "reset"): return self.const(None)
            return self.const(None)
        if n.startswith("torch.nn.") or n == "torch.nn.Module": return self.module_method(s, o, name, args, kw, st)
        if n == "torch.Optimizer":
            I.event("optim", st, what=name, oid=s.oid); return self.const(None)
        if n == "stub.Model" and name == "calc_polarizabilities":
            a = args[0] if args else next(iter(kw.values()))
            x = I.node_of(a, st)
            b = x.shape[0] if x.shape else None
            return I.new_arr(st, g.mk("model", [x], None, (b, Dim.const(3), Dim.const(3)) if b is not None else None, "f"), ("model", x.id))
        if n in ("contextlib.ExitStack",) and name == "enter_context":
            ev, ex = self.enter(args[0], st); return ev
        if n == "functools.partial": return I.top("partial." + name)
        if n == "re.Pattern": return self.re_call(name, [o.fields["__node__"]] + [I.node_of(a, st) for a in args], st)
        if n == "re.Match":
            if name in ("group",): return g.mk("re:group", [o.fields["__node__"]] + [I.node_of(a, st) for a in args], None, (), "s")
            return I.top("match." + name)
        if n == "random.Generator":
            if name in ("seed",): return self.const(None)
            r = self.rand_arr("numpy.random." + name, args, kw, st)
            if I.node_of(o.fields["seeded"], st).const is not True: I.event("nondet", st, what="Generator." + name, node=I.content(st, r))
            return r
        if n == "torch.Generator": 
            I.event("nondet", st, what="Generator." + name, node=None) if name == "seed" else None
            return s
        if n == "logging.Logger": return self.const(None)
        if n in ("pymatgen.core.Structure", "pymatgen.core.Lattice", "pymatgen.core.trajectory.Trajectory"):
            return self.opaque("call:pmg." + name, [I.node_of(a, st) for a in args], st)
        if "items" in o.fields and isinstance(o.fields["items"], Ref): return self.call_method(BoundV(o.fields["items"], name), args, kw, st)
        I.note("opaque", f"{n}.{name}")
        for a in args:
            if isinstance(a, Ref): I.event("escape", st, val=a, to=f"{n}.{name}")
        return self.opaque("call:." + name, [I.node_of(s, st)] + [I.node_of(a, st) for a in args], st)

    def module_method(self, s, o, name, args, kw, st):
        I, g = self.I, self.g
        if name in ("eval", "train"):
            v = self.const(False) if name == "eval" else (args[0] if args else kw.get("mode", self.const(True)))
            self.set_mode(s, v, st, set())
            I.event("mode", st, oid=s.oid, value=I.node_of(v, st))
            return s
        if name == "__init__":
            o = st.heap[s.oid]
            f = dict(o.fields); f.setdefault("training", self.const(True))
            st.heap[s.oid] = InstO(o.cls, f, o.tag)
            return self.const(None)
        if name in ("register_buffer", "register_parameter", "add_module", "register_module"):
            k = self.ckey(args[0])
            o = st.heap[s.oid]; f = dict(o.fields); f[k] = args[1]
            st.heap[s.oid] = InstO(o.cls, f, o.tag)
            return self.const(None)
        if name in ("to", "cuda", "cpu", "float", "double", "type"): return s
        if name in ("parameters", "named_parameters", "buffers", "modules", "children", "state_dict", "named_modules"):
            I.event("escape", st, val=s, to="Module." + name)
            return g.mk("call:." + name, [I.node_of(s, st)])
        if name == "append" and "items" in o.fields: return self.list_method(o.fields["items"], I.obj(o.fields["items"], st), "append", args, kw, st)
        if name in ("reset_parameters", "apply", "zero_grad", "load_state_dict", "requires_grad_"):
            I.event("param-change", st, oid=s.oid, what=name); return self.const(None)
        if name in ("__call__", "forward"): return I.call(s, args, kw, st)
        if name == "extra_repr": return self.const("")
        if name == "__setattr__": I.setattr(s, self.ckey(args[0]), args[1], st); return self.const(None)
        I.note("opaque", "Module." + name)
        return I.top("Module." + name)

    def set_mode(self, s, v, st, seen):
        """recursively sets .training on module objects (exempt from state-change events)"""
        if isinstance(s, Union):
            for x in s.vals: self.set_mode(x, v, st, seen)
            return
        if not isinstance(s, Ref) or s.oid in seen: return
        seen.add(s.oid)
        o = st.heap.get(s.oid)
        if isinstance(o, InstO):
            if "training" in o.fields:
                f = dict(o.fields); f["training"] = v
                st.heap[s.oid] = InstO(o.cls, f, o.tag)
                for k, x in f.items():
                    if k != "training": self.set_mode(x, v, st, seen)
            elif isinstance(o.cls, ExtV) and "items" in o.fields: self.set_mode(o.fields["items"], v, st, seen)
        elif isinstance(o, ListO):
            for x in (o.items if o.items is not None else ([o.elem] if o.elem is not None else [])): self.set_mode(x, v, st, seen)

    def call_base_method(self, f, args, kw, st):
        """method inherited from an external base class"""
        I, g = self.I, self.g
        name = f.func.name.split(".")[-1]
        base = f.func.name.rsplit(".", 1)[0]
        s = f.self
        o = I.obj(s, st)
        if base.endswith("Module"): return self.module_method(s, o, name, args, kw, st)
        if name in ("__init__", "__init_subclass__", "__post_init__", "__del__"): return self.const(None)
        if name in ("__setattr__",): I.setattr(s, self.ckey(args[0]), args[1], st); return self.const(None)
        if name in ("__getattribute__", "__getattr__"): return I.getattr(s, self.ckey(args[0]), st)
        if name in ("__eq__",): return self.const(isinstance(args[0], Ref) and args[0] == s)
        if name in ("__repr__", "__str__"): return g.mk("call:repr", [I.node_of(s, st)], None, (), "s")
        if name == "__new__": return I.alloc(st, InstO(args[0] if args else o.cls, {}), "new")
        if base.startswith("collections.abc"):
            if name == "__iter__": return self.b_iter([s], {}, st)
            if name in ("index",): I.may_raise(st, "ValueError", "index"); return I.top("index", shape=(), dt="i")
            return g.mk("call:." + name, [I.node_of(s, st)])
        if base.endswith("Dataset"): return I.top("Dataset." + name)
        I.note("opaque", f.func.name)
        return g.mk("call:." + name, [I.node_of(s, st)] + [I.node_of(a, st) for a in args])


class _FN:
    def __init__(self, l=0, c=0): self.lineno, self.col_offset = l, c + 5000


from .interp import DeadFlow as DeadFlowT  # noqa: E402
