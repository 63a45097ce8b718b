"""C20 Action nodes track exactly one goal and never lose or leak it."""
from .. import envs, nodeprop
from .. import base
from .. import tree as T
from ..kernel import MS, SEC
from .c21 import BAD, COMPS, TOL, gen_clock, gen_windows, long_ops
from .c22 import topic_tree

TYPES = {"Fibonacci": (("order",), ("sequence",), ("sequence",)), "LookupTransform": (("target", "order"), ("code", "text"), ("progress",))}
STUCK = 6


def contents(fields, n, i):
    """The values the simulated server puts into its messages (envs.ActionServer.values)."""
    i = 7 if i is None else 100 + i
    return {f: [n, i] if f == "sequence" else f"{n}-{i}" if f == "text" else n * 1000 + i for f in fields}


class C20(nodeprop.NodeProp):
    id = "C20"
    quick_total = 150
    nvariants = 2
    shrink_lists = nodeprop.NodeProp.shrink_lists + ["wirings", "clock"]
    rule = "a run counts when an action node's tick was judged while a goal of it was outstanding"

    def nontrivial(self, r):
        return r["extra"].get("judged_outstanding", 0) > 0

    def gen(self, rng, i):
        cnt = [0]
        nodes = []

        def leaf():
            cnt[0] += 1
            if rng.random() < 0.3:
                return {"c": "SimLeaf", "n": f"l{cnt[0]}"}
            k = rng.randint(1, 2)
            s = {"c": "Action", "n": f"a{cnt[0]}", "i": {
                "action_name": f"/act{k}", "action_type": "example_interfaces/action/" + ("Fibonacci", "LookupTransform")[k - 1],
                "timeout_seconds": rng.choice([0.0, 0.2, 0.5, 1.5, 30.2])}}
            nodes.append(s)
            return s
        while True:
            nodes.clear()
            cnt[0] = 0
            spec = topic_tree(rng, leaf, comps=COMPS)
            names = {s["n"] for s in T.names(spec)}
            nodes = [s for s in nodes if s["n"] in names]
            if nodes:
                break
        scr = base.gen_script(rng, spec, pd=0.25, teardown=0.05)
        wir, src = [], []
        for s in nodes:
            x = {}
            if rng.random() < 0.5:
                x["order"] = ["SimNames", "order"]
                src.append((s["n"], "order", "order", [1, 2, 3]))
            if "Lookup" in s["i"]["action_type"] and rng.random() < 0.3:
                x["target"] = ["SimNames", "target"]
                src.append((s["n"], "target", "target", ["a", "b"]))
            if x:
                s["x"] = x
            if rng.random() < 0.2:
                del s["i"]["action_name"]
                s["dyn"] = ["action_name"]
                k = "Lookup" in s["i"]["action_type"]
                src.append((s["n"], "action_name", "action", [f"/act{1 + k}", f"/act{1 + k}", f"/act{3 + k}"]))
        for k, (n, key, out, vals) in enumerate(src):
            spec = {"c": rng.choice(["SimPair", "SimPair", "SimPair", "Sequence"]), "n": f"top{k}", "ch": [{"c": "SimNames", "n": f"src{k}"}, spec]}
            wir.append([f"src{k}", out, n, key])
            hold = rng.choice([1, 2, 5, 10, 30])
            scr[f"src{k}"] = {"tick": [{"r": "S", "out": {out: v}} for v in [rng.choice(vals) for _ in range(rng.randint(1, 6))] for _ in range(hold)]}
        sc = dict(tree=spec, leaf=scr, clients=[{"name": "c1", "ops": long_ops(rng)}], wirings=wir, hz=rng.choice([10.0, 20.0, 50.0]), act={})
        ds = [0, 0, 1, 10, 30, 90, 150, 400, 1200, 5000]
        for k in range(1, 5):
            sc["act"][f"/act{k}"] = {"down": gen_windows(rng, 0.35), "script": [dict(
                accept=rng.random() < 0.85, ad=rng.choice(ds) * MS, rd=rng.choice(ds + [150, 400, 1200]) * MS,
                status=rng.choice("SSSSAC"), fb=[rng.choice(ds) * MS for _ in range(rng.choice([0, 1, 2, 5]))],
                fbd=[rng.choice([0, 0, 0, 40, 300]) * MS for _ in range(3)], resd=rng.choice([0, 0, 0, 60, 500]) * MS,
                cd=rng.choice([0, 0, 1, 40, 300, 4000]) * MS, ignore_cancel=rng.random() < 0.1,
                drop=rng.choice(["goal", "accept", "result", "cancel", "canceled"]) if rng.random() < 0.2 else None)
                for _ in range(rng.randint(1, 8))]}
        if rng.random() < 0.15:
            sc["clients"].append({"name": "c2", "ops": [dict(base.gen_control(rng), wait=base.wait_choice(rng)) for _ in range(2)]})
        sc["clock"] = gen_clock(rng)
        return sc

    def setup_env(self, w, sc):
        from example_interfaces.action import Fibonacci, LookupTransform
        for n, s in sc["act"].items():
            envs.ActionServer(w, n, (Fibonacci, LookupTransform)[n in ("/act2", "/act4")], s["down"], s["script"])

    def finish(self, w, sc):
        w.settle()
        w.final = []
        self.recover(w, sc)
        w.settle()
        w.left = [] if w.node is None else [
            n for k, n, o in w.node.resources if k == "action_client" and
            not any(g["client"] is o and g["a1"] is None for g in w.goals)]

    def check(self, w, sc):
        if self.died(w) or not hasattr(w, "left"):
            return
        nodeprop.blocking(w, sc, ("Action",))
        bad_shutdown = any(d["op"] == "shutdown" and (d["res"] or "ERR").startswith(("ERR", "EXC")) for d in w.ops)
        ended = w.manager().state == "EDITABLE" and not bad_shutdown
        if w.left and ended:
            return w.violation("left", f"action clients left after shutdown: {w.left}")
        for g in w.goals:
            if g["owner"] is None or g["owner"]["op"] != "tick":
                return w.violation("sent_outside_tick", f"goal {g['n']} of {g['name']} sent outside a tick")
            if ended and g["a1"] is not None and g["a"].accepted and g["r0"] is None and not g["cancel_requested"]:
                return w.violation("leaked", f"goal {g['n']} of {g['name']} was accepted, the tree was shut down, and the goal was "
                                   "not asked to cancel")
        nodes = {}
        for d in w.ops:
            if d["cls"] == "Action":
                nodes.setdefault(id(d["obj"]), []).append(d)
        by = {}
        for g in w.goals:
            by.setdefault(g["owner"]["i"], []).append(g)
        for ops in nodes.values():
            Judge(w, by).run(ops)
            if w.violations:
                return


class Judge:
    """Follows the operations of one action node and the goals they sent."""

    def __init__(self, w, by):
        self.w, self.by = w, by
        self.goals = []              # all goals of this node
        self.cur = None              # the latest goal of the current execution
        self.known = False
        self.changed = False         # inputs changed since cur was sent
        self.result = None           # result reported for cur
        self.out = {}
        self.d = None

    def bad(self, cls, what):
        d = self.d
        self.w.violation(cls, f"{d['op']} of {d['node']} (state {d['pre']}): {what}")

    def run(self, ops):
        for d in ops:
            if d["t1"] is None:
                return
            self.d = d
            if d["op"] == "tick":
                self.tick(d)
            else:
                self.other(d)
            if self.w.violations:
                return

    def other(self, d):
        if d["res"].startswith(("ERR", "EXC")):
            self.known = False
            return
        if d["op"] in ("setup", "reset"):
            self.out = {}
        if d["op"] in ("setup", "untick", "reset", "shutdown"):
            self.known, self.cur, self.changed, self.result = True, None, False, None
            for g in self.goals:
                if g["a1"] is not None and g["a1"] <= d["s0"] and g["a"].accepted and not (g["r0"] is not None and g["r0"] <= d["s1"]) and \
                        not any(s <= d["s1"] for s, _ in g["cancel_requested"]):
                    return self.bad("not_cancelled", f"goal {g['n']} was accepted and not asked to cancel")

    def tick(self, d):
        w = self.w
        sent = self.by.get(d["i"], [])
        self.goals += sent
        if d["pre"] in BAD or any(v[0] is None for v in d["in"].values()):
            self.known = False
            if sent:
                self.bad("refused_tick", "sent a goal although the tick was refused")
            return
        if d["res"].startswith(("ERR", "EXC")):
            return self.bad("tick_failed", f"ended with {d['res']}")
        if not self.known:
            return
        fields = [k for k in d["in"] if k not in ("action_type", "timeout_seconds")]
        upd = [k for k in fields if d["in"][k][1]]
        if len(sent) > 1:
            return self.bad("several", f"sent {len(sent)} goals")
        self.cancels(d, upd)
        if w.violations:
            return
        if sent:
            return self.sending(d, sent[0], fields, upd)
        if d["pre"] == "IDLE":
            return self.bad("not_sent", f"no goal sent at the start of an execution, result {d['res']}")
        if self.cur is None:
            return
        self.changed |= bool(upd)
        self.outputs(d)
        self.waiting(d)

    def cancels(self, d, upd):
        for g in self.goals:
            for s, o in g["cancel_requested"]:
                if o is d and not (upd or self.changed or g is not self.cur or self.maybe_late(d, g)):
                    return self.bad("cancelled", f"goal {g['n']} was asked to cancel without a reason")

    def sending(self, d, g, fields, upd):
        cur = self.cur
        if d["pre"] != "IDLE" and not (upd or self.changed):
            return self.bad("sent_again", f"sent goal {g['n']} although its inputs did not change")
        want = {k: d["in"][k][0] for k in fields if k != "action_name"}
        got = {k: getattr(g["goal"], k) for k in want}
        name = g["client"].node.resolve_topic_name(d["in"]["action_name"][0])
        if g["name"] != name or got != want or g["client"].action_type is not d["in"]["action_type"][0]:
            return self.bad("wrong_goal", f"sent {got} to {g['name']} instead of {want} to {name}")
        if d["res"] != "RUNNING":
            return self.bad("result", f"gave {d['res']} although a goal was just sent")
        for o in self.goals:
            if o is g or o["a0"] is not None and not o["a"].accepted or o["r0"] is not None or \
                    any(s <= g["seq"] for s, _ in o["cancel_requested"]):
                continue
            if o is cur and not cur.get("maybe_late") or o["a1"] is not None and o["a1"] <= d["s0"]:
                return self.bad("two_goals", f"sent goal {g['n']} while goal {o['n']} is still outstanding")
        w = sorted((d["w0"], d["w1"]))
        g.update(w0=w[0], w1=w[1], acc=[], sure=False, stuck=0, lim=d["in"]["timeout_seconds"][0] * SEC)
        self.cur, self.changed, self.result = g, False, None
        self.outputs(d)
        self.w.k.count("judged_goals", 1)

    def maybe_late(self, d, g):
        """May the node consider one of its waiting phases as timed out, in or before this tick?"""
        b = max(d["w0"], d["w1"])
        starts = [g["w0"]] + [a for a, _ in g["acc"]] + [c[0] for c in g.get("canc", [])]
        if b - min(starts) + TOL > g["lim"]:
            g["maybe_late"] = True
        return g.get("maybe_late", False)

    def waiting(self, d):
        g = self.cur
        w0, w1 = sorted((d["w0"], d["w1"]))
        late = self.maybe_late(d, g)
        acc_sure = g["a1"] is not None and g["a1"] <= d["s0"]
        acc_may = g["a0"] is not None and g["a0"] <= d["s1"]
        res_sure = g["r1"] is not None and g["r1"] <= d["s0"]
        res_may = g["r0"] is not None and g["r0"] <= d["s1"]
        canc_sure = g["c1"] is not None and g["c1"] <= d["s0"]
        asked = [s for s, _ in g["cancel_requested"] if s <= d["s0"]]
        if asked:
            g.setdefault("canc", []).append((w0, w1))
        # what may the node be waiting for?
        if self.result is not None and not self.changed:
            if d["res"] != self.result:
                return self.bad("result", f"gave {d['res']}, its result was {self.result} and nothing changed")
            return
        self.w.k.count("judged_outstanding", 1)
        if asked:
            over = w0 - g["canc"][0][1] - TOL > g["lim"]
            why = None if canc_sure or over else "the answer to its cancel request"
        elif not acc_sure:
            why = None if w0 - g["w1"] - TOL > g["lim"] else "acceptance"
        elif not g["a"].accepted or self.changed or res_sure:
            why = None
        else:
            why = None if g["sure"] and w0 - max(b for _, b in g["acc"]) - TOL > g["lim"] else "the result"
        if acc_may and not g["sure"]:
            g["acc"].append((w0, w1))
            g["sure"] = acc_sure
        res = d["res"]
        if res == "RUNNING":
            g["stuck"] = g["stuck"] + 1 if why is None else 0
            if g["stuck"] > STUCK:
                self.bad("stuck", f"still RUNNING {g['stuck']} ticks after there was nothing to wait for (goal {g['n']}, inputs "
                         f"{'changed' if self.changed else 'unchanged'})")
            return
        if res == "SUCCEEDED":
            if self.changed:
                return self.bad("wrong_result", f"SUCCEEDED with goal {g['n']} although its inputs changed since")
            if not res_may or g["r"].status != 4:
                return self.bad("wrong_result", f"SUCCEEDED, but goal {g['n']} " + ("has no result yet" if not res_may else
                                                                                     f"ended with status {g['r'].status}"))
            want = {"result." + k: v for k, v in contents(TYPES[self.kind(d)][1], g["n"], None).items()}
            got = {k: d["out"].get(k) for k in want}
            if got != want:
                return self.bad("wrong_outputs", f"SUCCEEDED with outputs {got} instead of {want}")
            self.w.k.count("judged_success", 1)
        elif res == "FAILED":
            reasons = [acc_may and not g["a"].accepted, res_may and g["r"].status != 4, late,
                       self.result == "FAILED"]
            if not any(reasons):
                return self.bad("wrong_result", f"FAILED, but goal {g['n']} was not refused, aborted, cancelled or timed out")
            self.w.k.count("judged_failures", 1)
        else:
            return self.bad("wrong_result", f"gave {res}")
        self.result = res

    def kind(self, d):
        return d["in"]["action_type"][0].__name__

    def outputs(self, d):
        """feedback.* and result.* only change to what the server sent for the current goal, and feedback is shown in time."""
        g = self.cur
        kind = TYPES[self.kind(d)]
        old, self.out = self.out, d["out"]
        got = {k: v for k, v in d["out"].items() if k.startswith("result.")}
        if any(v != old.get(k) for k, v in got.items()):
            ok = g["r0"] is not None and g["r0"] <= d["s1"]
            want = {"result." + k: v for k, v in contents(kind[1], g["n"], None).items()}
            if not ok or got != want and g["r"].status != 0:
                return self.bad("wrong_outputs", f"outputs changed to {got}, but the result of goal {g['n']} is {want if ok else 'not there'}")
        got = {k: v for k, v in d["out"].items() if k.startswith("feedback.")}
        fb = [(i, s0, s1) for i, s0, s1 in g["fbs"] if s0 <= d["s1"]]
        if any(v != old.get(k) for k, v in got.items()):
            if not any(got == self.fb(kind, g, i) for i, _, _ in fb):
                return self.bad("wrong_feedback", f"outputs changed to {got}, goal {g['n']} had feedback {[x[0] for x in fb]}")
            self.w.k.count("judged_feedback", 1)
        if d["res"] == "RUNNING" and not self.changed and not g.get("maybe_late") and g["sure"] and not g["cancel_requested"] and \
                not (g["r0"] is not None and g["r0"] <= d["s1"]):
            sure = [j for j, (i, s0, s1) in enumerate(fb) if s1 is not None and s1 <= d["s0"]]
            if sure and not any(got == self.fb(kind, g, i) for i, _, _ in fb[sure[-1]:]):
                return self.bad("missing_feedback", f"outputs are {got}, the latest feedback of goal {g['n']} is number {fb[sure[-1]][0]}")

    def fb(self, kind, g, i):
        return {"feedback." + k: v for k, v in contents(kind[2], g["n"], i).items()}


PROP = C20()
