"""C03 Stop and shutdown always complete and leave nothing running."""
from .. import base, execmodel
from ..base import MS, SEC, T
from .c02 import ExecProp


def retry_shutdown(w, n=8):
    """Faults are over (or will be): shut the tree down."""
    for _ in range(n):
        c = w.call("control_tree_execution", T.control(w, "SHUTDOWN"), client="final", op={"op": "control", "cmd": "SHUTDOWN"},
                   timeout=120 * SEC)
        w.final.append(c)
        if c.resp is None or c.resp.success:
            return c
        w.k.sleep(20 * MS)
    return c


class C03(ExecProp):
    id = "C03"
    quick_total = 240
    nvariants = 2
    nclients = (1, 2, 2, 3)
    weights = [3, 6, 3, 8, 1, 6, 1, 0]
    pd = 0.5
    pfault = 0.25
    pempty = 0.03
    size = (1, 8)

    def gen(self, rng, i):
        sc = super().gen(rng, i)
        if rng.random() < 0.15:
            sc["hz"] = rng.choice([0.5, 1.0, 200.0])
        return sc

    def recover(self, w, sc):
        if any(c.resp is None and not c.lost for c in w.calls):
            return
        retry_shutdown(w)
        w.settle(timeout=5 * SEC)
        w.rest_seq = len(w.k.log)
        w.k.sleep(1500 * MS)

    def check(self, w, sc):
        if self.died(w):
            return
        calls, loops = execmodel.collect(w)
        rates = [sc["hz"], 10.0] + [o["rate"] for cl in sc["clients"] for o in cl["ops"] if 0 < o.get("rate", 0) < 1e9]
        slack = int(2.1 * SEC / min(rates)) + int(1.2 * SEC) + sum(p[3] for p in sc.get("plan", []))
        for c in calls:
            if c.cmd not in ("STOP", "SHUTDOWN", "SETUP_AND_SHUTDOWN"):
                continue
            end = c.t_end if c.ended is not None else w.k.now
            spent = end - c.t_start
            if c.ended is None and spent < slack:
                continue
            inside = node_time(w, c.t_start, end)
            if spent - inside > slack:
                w.violation("late", f"{c.cmd} took {spent / SEC:.2f} s, only {inside / SEC:.2f} s of which nodes were busy")
                return
            if c.ended is None or not c.resp or not c.resp.success:
                continue
            for x in loops.values():
                if x.spawn >= c.started:
                    continue
                for o in x.ops:
                    if o["s0"] > c.ended:
                        w.violation("ticks_after_stop", f"{o['op']} of {o['node']} by a tick loop that {c.cmd} reported stopped")
                        return
                    if o["s1"] is None or o["s1"] > c.ended:
                        w.violation("ticks_after_stop", f"{o['op']} of {o['node']} was still in progress when {c.cmd} reported success")
                        return
            if [o for o in execmodel.overlaps(w, c)]:
                continue
            w.probes["stopped_states_checked"] += 1
            run = [n for n, s in c.states.items() if s.endswith("RUNNING")]
            if run:
                w.violation("left_running", f"after {c.cmd} reported success node {run[0]} is still RUNNING")
                return
            if c.cmd != "STOP" and execmodel.kind_of(c.before) == "normal":
                up = [n + " " + s for n, s in c.states.items() if not s.endswith(("SHUTDOWN", "UNINITIALIZED"))]
                if up:
                    w.violation("not_shut_down", f"after {c.cmd} reported success node {up[0]}")
                    return
        for c in w.calls:
            if c.srv != execmodel.CTRL and c.resp is None and not c.lost:
                w.violation("unanswered", f"{c.srv} was never answered")
                return
        if not w.clients_done:
            w.violation("unanswered", "a request was never answered")
            return
        if not w.final or w.final[-1].resp is None or not w.final[-1].resp.success:
            w.violation("cannot_shut_down", "the tree could not be shut down at the end: "
                        f"{w.final[-1].resp.error_message if w.final and w.final[-1].resp else 'no answer'}")


def node_time(w, a, b):
    """Time within [a, b] in which some node operation started from the root was in progress."""
    iv = sorted((max(a, d["t0"]), min(b, d["t1"] if d["t1"] is not None else b)) for d in w.ops if d["depth"] == 0 and d["t0"] < b)
    tot, end = 0, a
    for x, y in iv:
        x = max(x, end)
        if y > x:
            tot += y - x
            end = y
    return tot


PROP = C03()
