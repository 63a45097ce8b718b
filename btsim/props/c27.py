"""C27 Untick and reset stop everything below a node."""
from .. import base
from .. import tree as T
from ..kernel import SEC
from ..nodeprop import NodeProp

LOOSE = ("IgnoreRunning", "SimPair")


def below(obj):
    for c in obj.children:
        yield c
        yield from below(c)
    m = getattr(obj, "manager", None)
    if m is not None:
        for c in m.nodes.values():
            yield c


def keeps_running(obj):
    """Descendants that may legally stay running when obj has a result: only below IgnoreRunning / SimPair."""
    for c in obj.children:
        if type(obj).__name__ in LOOSE:
            yield from [c, *below(c)]
        else:
            yield from keeps_running(c)


def stop_invariant(w, d, phase):
    if phase != "end" or d["res"].startswith(("ERR", "EXC")):
        return
    o = d["obj"]
    if d["op"] in ("untick", "reset", "shutdown"):
        for c in below(o):
            if str(c.state) == "RUNNING":
                w.violation("left_running", f"{d['op']} of {d['cls']} {d['node']} left {type(c).__name__} {c.name} running")
    elif d["op"] == "tick" and d["res"] in ("SUCCEEDED", "FAILED") and d["cls"] not in LOOSE:
        ok = set(map(id, keeps_running(o)))
        for c in below(o):
            if str(c.state) == "RUNNING" and id(c) not in ok:
                w.violation("left_running", f"{d['cls']} {d['node']} ended with {d['res']} and left {type(c).__name__} {c.name} running")


class C27(NodeProp):
    id = "C27"
    quick_total = 200
    comps = ["Sequence", "Fallback", "MemorySequence", "MemoryFallback", "Parallel", "ParallelFailureTolerance", "NameSwitch", "EnumSwitch"]
    decos = ["Inverter", "IgnoreFailure", "IgnoreSuccess", "IgnoreRunning", "UntilSuccess", "Retry", "Repeat", "RepeatUntilFail",
             "RepeatIfFail", "RepeatAlways", "Optional", "Watch"]
    faults = 0.08
    nticks = 8

    def gen(self, rng, i):
        sc = super().gen(rng, i)
        sc["restart"] = rng.choice(["RESET", "RESET", "SHUTDOWN"])
        return sc

    def prepare(self, w, sc):
        super().prepare(w, sc)
        w.inv.append(stop_invariant)

    def drive(self, w, sc):
        self.start(w, sc)
        self.run_clients(w, sc)
        w.settle()
        w.compare = None
        for cmd in ("STOP", sc["restart"]):
            c = w.call("control_tree_execution", T.control(w, cmd), client="final", timeout=60 * SEC)
        if c.resp is None or not c.resp.success:
            return
        a = self.episode(w)
        # the same tree, never executed
        w.crash()
        w.start_process(self.params(sc))
        if not w.wait_up():
            return
        w.call("load_tree", T.load_req(w, sc["tree"], wirings=sc.get("wirings", ()), rate=sc.get("hz", 10.0)))
        w.compare = (a, self.episode(w))

    def episode(self, w):
        w.leaf_n.clear()
        n0 = len(w.ops)
        for _ in range(self.nticks):
            c = w.call("control_tree_execution", T.control(w, "TICK_ONCE"), client="final", timeout=60 * SEC)
            if c.resp is None:
                break
        return [(d["node"], d["op"], d["res"]) for d in w.ops[n0:] if d["op"] != "setup"]

    def check(self, w, sc):
        if getattr(w, "compare", None) and w.compare[0] != w.compare[1] and not sc.get("node_faults"):
            a, b = w.compare
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            w.violation("not_fresh", f"after {sc['restart']} the tree does not behave like a fresh one: operation {i} is "
                        f"{a[i] if i < len(a) else None} instead of {b[i] if i < len(b) else None}")
        w.probes["compared"] += getattr(w, "compare", None) is not None
        self.died(w)


_ = base
PROP = C27()
