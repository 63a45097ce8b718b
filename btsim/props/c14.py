"""C14 Nodes go through a legal life cycle."""
from .. import base, libgen, nodecheck
from ..nodeprop import NodeProp

ALLOWED = {"setup": {"IDLE"}, "tick": {"RUNNING", "SUCCEEDED", "FAILED", "ASSIGNED", "UNASSIGNED"}, "untick": {"IDLE", "PAUSED"},
           "reset": {"IDLE"}, "shutdown": {"SHUTDOWN"}}
DECOS = base.DECOS + ["ThrottleSuccess", "RepeatNoAutoReset", "Watch"]


class C14(NodeProp):
    id = "C14"
    quick_total = 200
    comps = ["Sequence", "Fallback", "MemorySequence", "MemoryFallback", "Parallel", "ParallelFailureTolerance", "SimPair",
             "NameSwitch", "EnumSwitch"]
    decos = DECOS
    faults = 0.6
    multi = 0.4

    def gen(self, rng, i):
        sc = super().gen(rng, i)
        if rng.random() < 0.35:
            # nodes of the library among the scripted ones
            sc["tree"] = libgen.put(rng, sc["tree"], rng.choice([0.3, 0.7]), without=("FormatString", "EnumFields"))
            keep = base.leaves(sc["tree"])
            sc["leaf"] = {n: x for n, x in sc["leaf"].items() if n in keep}
            sc["node_faults"] = [f for f in sc.get("node_faults", []) if f["node"] in keep]
        names = base.leaves(sc["tree"])
        if names and rng.random() < 0.25:
            sc["node_faults"] = sc.get("node_faults", []) + [{"node": rng.choice(names), "op": rng.choice(["shutdown", "shutdown", "setup"]), "nth": rng.choice([0, 0, 1]),
                                                              "do": rng.choice(["ERR", "ERR", "EXC"])}]
        return sc

    def check(self, w, sc):
        life = {}        # node object -> (phase, last operation)
        state = {}       # node object -> state after its last operation
        ticks = {}
        ix = {d["i"]: d for d in w.ops}
        for d in sorted(w.ops, key=lambda d: d["s0"]):
            o = id(d["obj"])
            if d["op"] == "tick" and d["parent"] is not None and ix[d["parent"]]["op"] == "tick":
                k = (d["parent"], o)
                ticks[k] = ticks.get(k, 0) + 1
                if ticks[k] > 1:
                    w.violation("ticked_twice", f"{d['cls']} {d['node']} was ticked twice in one tick of "
                                f"{ix[d['parent']]['cls']} {ix[d['parent']]['node']}")
            if o in state and state[o] is not None and d["pre"] != state[o]:
                w.violation("state_changed", f"the state of {d['cls']} {d['node']} changed from {state[o]} to {d['pre']} "
                            f"outside of its operations (seen by {d['op']})")
            state[o] = None if d["t1"] is None else d["post"]
            if d["t1"] is None:
                continue
            res = nodecheck.kind(d["res"])
            if res not in ("ERR", "EXC"):
                if d["post"] not in ALLOWED[d["op"]]:
                    w.violation("bad_state", f"{d['op']} of {d['cls']} {d['node']} succeeded and left state {d['post']}")
                if res != d["post"]:
                    w.violation("bad_state", f"{d['op']} of {d['cls']} {d['node']} reported {res} in state {d['post']}")
                if d["op"] in ("tick", "untick", "reset") and d["pre"] in nodecheck.BADSTATE:
                    w.violation("illegal_op", f"{d['op']} of {d['cls']} {d['node']} accepted in state {d['pre']}")
                if d["op"] == "setup" and d["pre"] not in ("UNINITIALIZED", "SHUTDOWN"):
                    w.violation("illegal_op", f"setup of {d['cls']} {d['node']} accepted in state {d['pre']}")
            elif res == "ERR" and d["post"] not in ("BROKEN", "SHUTDOWN", "UNINITIALIZED") and \
                    not (d["op"] == "setup" and d["post"] == d["pre"]):
                w.violation("bad_state", f"{d['op']} of {d['cls']} {d['node']} failed with {d['res']} and left state {d['post']}")
        for d in w.ops:
            if d["t1"] is not None and not d["cls"].startswith("Sim") and not d["obj"].children and d["res"].startswith(("ERR", "EXC")) and \
                    (d["op"] in ("untick", "reset") and d["pre"] not in nodecheck.BADSTATE or d["op"] == "shutdown" and d["pre"] != "BROKEN"):
                w.violation("refused_op", f"{d['op']} of {d['cls']} {d['node']} in state {d['pre']} ended with {d['res']}")
        asked = {(d["parent"], id(d["obj"])) for d in w.ops if d["op"] == "shutdown"}
        for d in w.ops:
            if d["op"] != "shutdown" or d["t1"] is None or d["res"].startswith("EXC"):
                continue
            for c in d["obj"].children:
                if (d["i"], id(c)) not in asked:
                    w.violation("not_shut_down", f"shutdown of {d['cls']} {d['node']} ended with {d['res']} and did not shut down its child {c.name}")
        # what the implementations of the scripted leaves went through
        for e in w.k.log:
            if e[2] != "leaf":
                continue
            name, op, n, r = e[3:7]
            ph = life.get(name, "down")
            if op == "setup" and ph != "down" or op in ("tick", "untick", "reset", "shutdown") and ph == "down" or \
                    op in ("tick", "untick", "reset") and ph == "broken":
                w.violation("life_cycle", f"{op} of {name} (occurrence {n}) reached the node although it is {ph}")
                break
            if r in ("ERR", "EXC", "KEY"):
                life[name] = "broken"
            else:
                life[name] = {"setup": "up", "shutdown": "down"}.get(op, ph)
        if not w.violations:
            nodecheck.run(w)
        self.died(w)


PROP = C14()
