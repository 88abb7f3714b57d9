"""Obligations, findings, evidence and the exit protocol shared by all checks."""
import json, os, re, sys, time, hashlib, traceback
from .core import *
from .entries import Entries

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RN_REPO", "/repo")
EVID = os.environ.get("RN_EVIDENCE") or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence")


class Vanished(Exception):
    """A public construct the property is about is gone."""


class Check:
    def __init__(self, pid, tier, repo=None):
        self.pid, self.tier, self.repo = pid, tier, repo or REPO
        self.obl = []          # (rule, construct, status, where, msg)
        self.analysed = set()
        self.info = {}
        self._E = {}
        self.notes = []

    # -- engine instances
    def entries(self, key="std", **kw):
        if key not in self._E: self._E[key] = Entries(self.repo, **kw)
        return self._E[key]

    # -- obligations
    def add(self, status, rule, construct, where="", msg=""):
        if isinstance(where, tuple): where = f"{where[0]}:{where[1]}"
        self.obl.append((rule, construct, status, where, msg))

    def ok(self, rule, construct, where="", msg=""): self.add("ok", rule, construct, where, msg)
    def bad(self, rule, construct, where="", msg=""): self.add("violation", rule, construct, where, msg)
    def unknown(self, rule, construct, where="", msg=""): self.add("undecided", rule, construct, where, msg)

    def decide(self, cond, rule, construct, where="", msg=""):
        """cond: True (holds), False (violated), None (undecided)."""
        (self.ok if cond else self.unknown if cond is None else self.bad)(rule, construct, where, msg)

    def anchor(self, dotted):
        try: return self.entries().I.get(dotted)
        except KeyError: raise Vanished(dotted)


def load_known():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) rule=(\S+) construct=(\S+)\s*(.*)", l.strip())
                if m: out.append(m.groups())
    return out


def finish(chk, t0, level_note=""):
    pid = chk.pid
    merged = {}
    rank = {"ok": 0, "undecided": 1, "violation": 2}
    for rule, con, status, where, msg in chk.obl:
        k = (rule, con)
        if k not in merged or rank[status] > rank[merged[k][0]]: merged[k] = (status, where, msg)
    known = [k for k in load_known() if k[0] == pid]
    viol, kn, und, ok = [], [], [], []
    for (rule, con), (status, where, msg) in sorted(merged.items()):
        if status == "violation":
            hit = [k for k in known if k[1] == rule and k[2] == con.replace(" ", "_")]
            (kn if hit else viol).append((rule, con, where, msg))
        elif status == "undecided": und.append((rule, con, where, msg))
        else: ok.append((rule, con, where, msg))
    rules = {}
    for (rule, con), (status, where, msg) in merged.items():
        d = rules.setdefault(rule, {"ok": 0, "undecided": 0, "violation": 0})
        d[status] += 1
    E = list(chk._E.values())
    fns = set()
    steps = calls = 0
    for e in E:
        fns |= e.I.functions_seen; steps += e.I.steps; calls += e.I.call_count
    ev = {
        "property": pid, "tier": chk.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "Static analysis by abstract interpretation / syntax-tree dataflow of the current source of " + chk.repo +
                           "; nothing of the repository was executed. Each obligation is one (rule, construct) pair; a violation names the construct.",
            "obligations": len(merged), "discharged": len(ok), "undecided": len(und), "violations": len(viol), "known_findings": len(kn),
            "rules": rules, "functions_analysed": len(fns), "abstract_steps": steps, "calls_interpreted": calls,
            "functions": sorted(fns), "samples": [list(x) for x in ok[:12]],
            "undecided_list": [list(x) for x in und[:60]], "violation_list": [list(x) for x in viol], "known_list": [list(x) for x in kn],
        },
        "wall_s": round(time.time() - t0, 2),
    }
    ev["coverage"].update(chk.info)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f: json.dump(ev, f, indent=1, default=str)
    print(f"{pid}: {len(merged)} obligations, {len(ok)} discharged, {len(und)} undecided, {len(viol)} violated, {len(kn)} known; "
          f"{len(fns)} functions, {steps} abstract steps, {ev['wall_s']} s")
    for r in sorted(rules): print(f"  rule {r}: {rules[r]}")
    for rule, con, where, msg in und[:25]: print(f"  UNDECIDED [{rule}] {con} {where} {msg}")
    for rule, con, where, msg in kn: print(f"KNOWN-FINDING: property={pid} [{rule}] {con} at {where}: {msg}")
    if viol:
        rp = os.path.join(EVID, pid + ".violations.txt")
        with open(rp, "w") as f:
            for rule, con, where, msg in viol: f.write(f"[{rule}] {con}\n  at {where}\n  {msg}\n")
        for rule, con, where, msg in viol: print(f"  VIOLATED [{rule}] {con} at {where}: {msg}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if not ok and not kn:
        print(f"ERROR: nothing could be decided for {pid}")
        return 2
    return 0


def main(argv, registry):
    t0 = time.time()
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    chk = Check(pid, tier)
    sys.setrecursionlimit(20000)
    try:
        registry[pid](chk)
    except Vanished as e:
        print(f"ERROR: {pid}: the construct {e} is not in the tree any more")
        return 2
    except Exception as e:      # part of the analysis was not carried out: nothing is claimed about it
        if os.environ.get("RN_STRICT"): raise
        traceback.print_exc()
        chk.unknown("analysis", pid, "", f"the analysis stopped: {type(e).__name__} {str(e)[:100]}")
    return finish(chk, t0)


# ---------------------------------------------------------------------------- shared helpers
def reachable(st, v, stop=lambda o: False):
    """oids reachable from a value in a state: {oid: path}."""
    out, todo = {}, [(v, "")]
    while todo:
        x, p = todo.pop()
        if isinstance(x, Union):
            todo += [(y, p) for y in x.vals]
        elif isinstance(x, TupleV):
            todo += [(y, f"{p}[{i}]") for i, y in enumerate(x.items)]
        elif isinstance(x, BoundV): todo.append((x.self, p + ".__self__"))
        elif isinstance(x, Ref):
            if x.oid in out: continue
            o = st.heap.get(x.oid)
            out[x.oid] = p
            if o is None or stop(o): continue
            if isinstance(o, ArrO):
                if o.base is not None: todo.append((Ref(o.base[0]), p + ".base"))
            elif isinstance(o, ListO):
                if o.items is not None: todo += [(y, f"{p}[{i}]") for i, y in enumerate(o.items)]
                elif o.elem is not None: todo.append((o.elem, p + "[*]"))
            elif isinstance(o, DictO):
                todo += [(y, f"{p}[{k!r}]") for k, y in o.items.items()]
                todo += [(y, p + "[*]") for y in (o.key, o.val) if y is not None]
            elif isinstance(o, InstO):
                todo += [(y, f"{p}.{k}") for k, y in o.fields.items()]
    return out


def deps(node, stop=None):
    """All nodes a node depends on through data and recorded control conditions."""
    seen, todo = {}, [node]
    while todo:
        n = todo.pop()
        if n is None or n.id in seen: continue
        seen[n.id] = n
        if stop and stop(n): continue
        todo += [a for a in n.args if isinstance(a, Node)]
        todo += [c for c in n.ctrl if isinstance(c, Node)]
    return seen.values()


def has_top(node):
    return any(n.op in ("top", "opaque", "anyelem") for n in deps(node))


def leaves(node):
    return {n for n in deps(node) if n.op == "leaf"}


def short(dotted):
    return dotted.replace("ramannoodle.", "", 1)
