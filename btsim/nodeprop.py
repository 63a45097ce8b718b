"""Common part of the node-semantics checks (C14-C17, C24, C27): trees are driven through the real execution services
by one or two clients, and every recorded node operation is compared with the reference models."""
from . import base, nodecheck
from . import tree as T
from .kernel import MS, SEC



def blocking(w, sc, classes):
    """Leaves that talk to the outside must not wait for it inside an operation."""
    for t, what, timeout, thr in w.blocking_waits:
        return w.violation("blocking", f"{what} blocks the tick")
    if sc.get("plan"):
        return
    for d in w.ops:
        if d["cls"] in classes and d["t1"] is not None and d["t1"] - d["t0"] > 50 * MS:
            return w.violation("blocking", f"{d['op']} of {d['node']} took {(d['t1'] - d['t0']) / SEC} s")


RUNS = ["TICK_ONCE", "TICK_PERIODICALLY", "TICK_UNTIL_RESULT"]


def gen_ops(rng, n, second=False):
    ops = []
    for _ in range(n):
        x = rng.random()
        if x < 0.4:
            for _ in range(rng.randint(1, 6)):
                ops.append({"op": "control", "cmd": "TICK_ONCE", "wait": rng.choice([0, 30 * MS, 120 * MS])})
        elif x < 0.65:
            c = rng.choice(RUNS[1:])
            ops.append({"op": "control", "cmd": c, "rate": rng.choice([5.0, 20.0, 50.0, 100.0]), "wait": rng.choice([0, 5 * MS])})
            ops.append({"op": "control", "cmd": "STOP", "wait": rng.choice([0, 30 * MS, 100 * MS, 250 * MS, 700 * MS])})
        elif x < 0.8:
            ops.append({"op": "control", "cmd": "RESET", "wait": base.wait_choice(rng, 0.3)})
        elif x < 0.9:
            ops.append({"op": "control", "cmd": "SHUTDOWN", "wait": base.wait_choice(rng, 0.3)})
        else:
            ops.append(dict(base.gen_control(rng), wait=base.wait_choice(rng, 0.3)))
    return ops


# (constants of NodeState without an alias)
CASES = ["IDLE", "UNASSIGNED", "ASSIGNED", "RUNNING", "BROKEN", "PAUSED", "SHUTDOWN"]


class NodeProp(base.Session):
    classes = None
    comps = base.COMPOSITES
    decos = base.DECOS
    pdeco = 0.25
    size = (2, 9)
    roots = None
    faults = 0.15
    nvariants = 1
    empty = 0.06
    multi = 0.15

    def gen(self, rng, i):
        spec = base.gen_tree(rng, rng.randint(*self.size), comps=self.comps, decos=self.decos, pdeco=self.pdeco,
                             root=rng.choice(self.roots) if self.roots and rng.random() < 0.6 else None)
        wir, srcs = [], []
        if rng.random() < self.empty:
            for s in list(T.names(spec)):
                if s.get("ch") and rng.random() < 0.3 and s["c"] not in ("Parallel", "ParallelFailureTolerance"):
                    s["ch"] = []
        spec = self.extras(rng, spec, srcs, wir)
        scr = base.gen_script(rng, spec, pd=0.12, teardown=0.04, durs=(0, 2 * MS, 20 * MS, 70 * MS))
        for name, outs in srcs:
            scr[name] = {"tick": [{"r": "S", "out": rng.choice(outs)} for _ in range(rng.randint(1, 8))]}
        clients = [{"name": "c1", "ops": gen_ops(rng, rng.randint(2, 6))}]
        if rng.random() < self.multi:
            clients.append({"name": "c2", "ops": [dict(base.gen_control(rng), wait=base.wait_choice(rng)) for _ in
                                                  range(rng.randint(1, 3))]})
        sc = dict(tree=spec, leaf=scr, clients=clients, wirings=wir, hz=rng.choice([10.0, 20.0, 50.0]))
        names = base.leaves(spec)
        if names and rng.random() < self.faults:
            sc["node_faults"] = [{"node": rng.choice(names), "op": rng.choice(["setup", "tick", "tick", "tick", "untick", "reset",
                                                                                "shutdown"]),
                                  "nth": rng.randint(0, 4), "do": rng.choice(["ERR", "ERR", "EXC", "KEY"])}
                                 for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.15 and "Optional" in str(spec):
            sc["cannot_execute"] = [n for n in base.leaves(spec) if rng.random() < 0.4]
        return sc

    def extras(self, rng, spec, srcs, wir):
        """Give nodes with wired inputs a source: Sequence[src1, ..., tree]."""
        need = []
        for s in T.names(spec):
            if s["c"] == "NameSwitch":
                names = [c["n"] for c in s["ch"]] or ["q"]
                need.append((s, "name", "text", [{"text": n} for n in names * 3 + ["nobody"]]))
            elif s["c"] == "EnumSwitch":
                consts = rng.sample(CASES, len(CASES))
                for c, k in zip(s["ch"], consts):
                    c["n"] += "." + k
                names = consts[:len(s["ch"])] * 3
                need.append((s, "case", "text", [{"text": n} for n in names + [consts[-1], "nobody"]]))
            elif s["c"] == "Watch":
                need.append((s, "watch", "text", [{"text": t} for t in ("x", "x", "x", "y", "z")]))
            elif s["c"] == "RepeatNoAutoReset":
                need.append((s, "reset", "flag", [{"flag": v} for v in (False, False, False, True)]))
        if not need:
            return spec
        ch = []
        for j, (s, key, out, outs) in enumerate(need):
            n = f"src{j}"
            ch.append({"c": "SimSource", "n": n})
            srcs.append((n, outs))
            wir.append([n, out, s["n"], key])
            if s["c"] == "EnumSwitch":
                s["x"] = {key: ["SimSource", out]}
            else:
                s["dyn"] = [key]
        return {"c": "Sequence", "n": "top", "ch": ch + [spec]}

    def fixup(self, sc):
        names = {s["n"] for s in T.names(sc["tree"])}
        sc["wirings"] = [x for x in sc.get("wirings", []) if x[0] in names and x[2] in names]
        for s in T.names(sc["tree"]):
            if s["c"].startswith("Parallel"):
                if not s["ch"]:
                    return None
                s["i"]["needed_successes"] = min(s["i"]["needed_successes"], len(s["ch"]))
        return sc

    def check(self, w, sc):
        nodecheck.run(w, self.classes)
        self.died(w)


_ = (MS, SEC)
