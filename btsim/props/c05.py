"""C05 A failing node stops the tree in a reported, recoverable error state."""
from .. import base, execmodel
from ..base import MS, SEC, T
from .c02 import ExecProp, gen_faults
from .c03 import retry_shutdown

DECOS = [d for d in base.DECOS if d != "Throttle"]


class C05(ExecProp):
    id = "C05"
    quick_total = 200
    nvariants = 1
    nclients = (1, 1, 2)
    nops = (3, 9)
    weights = [4, 5, 4, 3, 2, 4, 1, 0]
    pempty = 0.0

    def gen(self, rng, i):
        sc = super().gen(rng, i)
        spec = base.gen_tree(rng, rng.randint(1, 7), decos=DECOS)
        sc["tree"] = spec
        sc["strange"] = False
        sc["leaf"] = base.gen_script(rng, spec, pd=0.15, teardown=0.1)
        sc["node_faults"] = gen_faults(rng, spec, n=3)
        sc["after"] = [rng.choice(["TICK_ONCE", "TICK_ONCE", "TICK_ONCE", "RESET", "STOP"]) for _ in range(rng.randint(2, 6))]
        return sc

    def gen_op(self, rng, spec):
        return base.gen_control(rng, self.weights)

    def fixup(self, sc):
        names = set(base.leaves(sc["tree"]))
        sc["node_faults"] = [f for f in sc.get("node_faults", []) if f["node"] in names]
        return sc

    def recover(self, w, sc):
        w.runs = []
        if any(c.resp is None and not c.lost for c in w.calls):
            return
        w.sc["node_faults"] = []
        w.faults_over = len(w.k.log)
        c = retry_shutdown(w, 4)
        if c.resp is None or not c.resp.success:
            return
        for fresh in (False, True):
            if fresh:
                r = w.call(*base.build(w, {"op": "reload"}), client="final", op={"op": "reload"})
                if r.resp is None or not r.resp.success:
                    return
            w.leaf_n.clear()
            n = len(w.ops)
            answers = []
            for cmd in sc["after"]:
                r = w.call("control_tree_execution", T.control(w, cmd), client="final", op={"op": "control", "cmd": cmd})
                if r.resp is None:
                    return
                answers.append((r.resp.success, r.resp.tree_state))
            c = retry_shutdown(w, 1)
            w.settle(timeout=2 * SEC)
            w.runs.append((answers, [(o["node"], o["op"], o["depth"], o["res"]) for o in w.ops[n:]]))
        w.k.sleep(50 * MS)

    def check(self, w, sc):
        if self.died(w):
            return
        execmodel.judge(w, "error_handling")
        if w.violations:
            return
        msgs = [(seq, m) for seq, t, m in w.msgs("~/tree_state_list")]
        for x in w.exec_loops.values():
            if x.final != "ERROR" or not x.ops:
                continue
            w.k.count("loops_failed", 1)
            a = max(o["s0"] for o in x.ops)
            seen = [seq for seq, m in msgs if a < seq < x.end and m.tree_states and m.tree_states[0].state == "ERROR"]
            if not seen:
                w.violation("error_not_published", f"a node failed during {x.owner.cmd}, but no tree state ERROR was published before ticking ended")
                return
        if not w.clients_done:
            w.violation("unanswered", "a request was never answered after a node failed")
            return
        if not w.final or w.final[-1].resp is None or not w.final[-1].resp.success:
            w.violation("cannot_recover", "the tree could not be shut down after the faults were over: "
                        f"{w.final[-1].resp.error_message if w.final and w.final[-1].resp else 'no answer'}")
            return
        if len(w.runs) != 2:
            w.violation("cannot_recover", "the tree could not be executed again after the error")
            return
        a, b = w.runs
        if a[0] != b[0]:
            w.violation("not_as_new", f"after an error and a shutdown the tree answers {a[0]} to {sc['after']}, a newly loaded one {b[0]}")
        elif a[1] != b[1]:
            i = next((i for i, (p, q) in enumerate(zip(a[1], b[1])) if p != q), min(len(a[1]), len(b[1])))
            w.violation("not_as_new", f"after an error and a shutdown the tree does {a[1][i:i + 1]}, a newly loaded one {b[1][i:i + 1]} "
                        f"(operation {i} of {sc['after']})")


PROP = C05()
