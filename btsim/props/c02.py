"""C02 Execution commands follow the documented tree state machine."""
from .. import base, execmodel
from ..base import MS, SEC


def gen_faults(rng, spec, n=2, ops=("setup", "tick", "tick", "untick", "reset", "shutdown"), do=("ERR", "EXC", "KEY")):
    out = []
    names = base.leaves(spec)
    for _ in range(rng.randint(1, n)):
        op = rng.choice(ops)
        out.append({"node": rng.choice(names), "op": op, "nth": rng.choice([0, 0, 0, 1, 2, 4]) if op == "tick" else rng.choice([0, 0, 1]),
                    "do": rng.choice(do)})
    return out


class ExecProp(base.Session):
    pfault = 0.35
    pempty = 0.06
    nclients = (1, 1, 1, 2, 3)
    nops = (4, 14)
    weights = base.CW
    size = (1, 6)
    pd = 0.25
    rule = "a run counts when its tree executed at least one node operation; distinct by the hash of its whole event log"

    def gen(self, rng, i):
        spec = base.gen_tree(rng, rng.randint(*self.size))
        leaf = base.gen_script(rng, spec, pd=self.pd, teardown=0.15)
        sc = dict(tree=spec if rng.random() > self.pempty else None, leaf=leaf, hz=rng.choice([2.0, 10.0, 10.0, 20.0, 50.0]))
        sc["strange"] = bool(spec.get("ch")) and rng.random() < self.pempty
        if rng.random() < self.pfault:
            sc["node_faults"] = gen_faults(rng, spec)
        sc["clients"] = []
        for c in range(rng.choice(self.nclients)):
            ops = [self.gen_op(rng, spec) for _ in range(rng.randint(*self.nops))]
            for op in ops:
                op["wait"] = base.wait_choice(rng)
            sc["clients"].append({"name": f"c{c + 1}", "ops": ops})
        return sc

    def gen_op(self, rng, spec):
        x = rng.random()
        if x < 0.02:
            return {"op": "control", "cmd": rng.choice([8, 99, 255])}
        if x < 0.06:
            names = [s["n"] for s in base.T.names(spec)]
            return rng.choice([{"op": "reload"}, {"op": "clear"}, {"op": "get_subtree", "n": rng.choice(names)},
                               {"op": "remove", "n": rng.choice(names), "rc": rng.random() < 0.5},
                               {"op": "add_at", "c": "SimLeaf", "n": "zz", "idx": -1}])
        op = base.gen_control(rng, self.weights)
        if "rate" in op and rng.random() < 0.06:
            op["rate"] = rng.choice([-1.0, float("inf"), 0.0])
        return op

    def prepare(self, w, sc):
        super().prepare(w, sc)
        w.watched = base.EDITS | {execmodel.CTRL}

    def run_clients(self, w, sc):
        if sc.get("strange") and sc.get("tree"):
            w.call(*base.build(w, {"op": "remove", "n": sc["tree"]["n"], "rc": False}), op={"op": "remove"})
        super().run_clients(w, sc)


class C02(ExecProp):
    id = "C02"
    quick_total = 220
    nvariants = 2

    def check(self, w, sc):
        if self.died(w):
            return
        hist = execmodel.judge(w)
        if w.violations:
            return
        self.published(w, hist)

    def published(self, w, hist):
        """At rest between two requests the state on the topic is the state of the tree."""
        msgs = [(seq, t, m) for seq, t, m in w.msgs("~/tree_state_list")]
        stamps = sorted([c.started for c in w.calls if c.started is not None])
        for c, found, got in hist:
            if got is None or c.ended is None or len(got) != 1:
                continue
            s = next(iter(got))
            if isinstance(s, execmodel.Loop):
                continue
            if any(o.started is not None and o.started <= c.ended and (o.ended is None or o.ended > c.ended) for o in w.calls if o is not c):
                continue
            nxt = next((x for x in stamps if x > c.ended), len(w.k.log))
            if nxt < len(w.k.log) and w.k.log[nxt][1] - c.t_end < 1 * MS:
                continue
            last = [m for seq, t, m in msgs if seq < nxt]
            if not last or not last[-1].tree_states:
                continue
            w.probes["published_state_compared"] += 1
            if last[-1].tree_states[0].state != s:
                w.violation("published_state", f"after {c.cmd} the tree is in state {s}, but the last published state is {last[-1].tree_states[0].state}")
                return


_ = SEC
PROP = C02()
