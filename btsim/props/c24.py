"""C24 Time-based nodes keep their time bounds under any clock and tick jitter."""
from .. import base, envs, nodecheck
from .. import tree as T
from ..kernel import MS, SEC
from .. import nodeprop
from ..nodeprop import NodeProp, gen_ops

CLASSES = {"Wait", "WaitForService", "Throttle", "ThrottleSuccess", "GetTimeNow"}


class C24(NodeProp):
    id = "C24"
    quick_total = 200
    rule = "a run counts when at least one operation of a time-based node was compared with its reference model"

    def nontrivial(self, r):
        return any(k.startswith("judged_") for k in r["extra"])

    def gen(self, rng, i):
        cnt = [0, 0]

        def leaf():
            cnt[0] += 1
            n = f"t{cnt[0]}"
            x = rng.random()
            if x < 0.4:
                return {"c": "Wait", "n": n, "i": {"seconds_to_wait": rng.choice([0.0, 0.05, 0.1, 0.3, 1.0, 2.5])}}
            if x < 0.6:
                return {"c": "WaitForService", "n": n, "i": {
                    "service_name": f"/svc{rng.randint(1, 2)}", "service_type": "std_srvs/srv/Trigger",
                    "wait_for_service_seconds": rng.choice([0.0, 0.2, 1.0, 3.0])}}
            if x < 0.68:
                return {"c": "GetTimeNow", "n": n}
            return {"c": "SimLeaf", "n": f"l{cnt[0]}"}

        def node(d):
            x = rng.random()
            if d == 0 or x < 0.3:
                return leaf()
            cnt[1] += 1
            n = f"n{cnt[1]}"
            if x < 0.7:
                c = rng.choice(["Throttle", "ThrottleSuccess"])
                return {"c": c, "n": n, "i": {"tick_interval": rng.choice([0.0, 0.05, 0.2, 0.5, 2.0])}, "ch": [node(d - 1)]}
            if x < 0.78:
                return {"c": rng.choice(["RepeatAlways", "Inverter", "UntilSuccess"]), "n": n, "ch": [node(d - 1)]}
            c = rng.choice(["Sequence", "Fallback", "MemorySequence", "SimPair"])
            return {"c": c, "n": n, "ch": [node(d - 1) for _ in range(2)]}
        spec = node(3)
        ops = gen_ops(rng, rng.randint(2, 5))
        for _ in range(rng.randint(1, 3)):
            c = rng.choice(["TICK_PERIODICALLY", "TICK_UNTIL_RESULT"])
            j = rng.randint(0, len(ops))
            ops[j:j] = [{"op": "control", "cmd": c, "rate": rng.choice([7.0, 20.0, 50.0]), "wait": 0},
                        {"op": "control", "cmd": "STOP", "wait": rng.choice([400, 1100, 2600, 4000]) * MS}]
            if rng.random() < 0.3:
                ops[j + 1:j + 1] = [{"op": "control", "cmd": "DO_NOTHING", "wait": rng.choice([10, 300]) * MS}]
        scr = base.gen_script(rng, spec, pd=0.25, teardown=0.0)
        sc = dict(tree=spec, leaf=scr, clients=[{"name": "c1", "ops": ops}], hz=rng.choice([5.0, 10.0, 30.0]), svc={})
        for s in ("/svc1", "/svc2"):
            t, down = 0, []
            if rng.random() < 0.6:
                for _ in range(rng.randint(1, 3)):
                    a = t + rng.choice([0, 200, 900, 2500]) * MS
                    b = a + rng.choice([100, 700, 3000, 20000]) * MS
                    down.append([a, b])
                    t = b + 100 * MS
            sc["svc"][s] = down
        if rng.random() < 0.4:
            sc["clock"] = [{"at": rng.randint(50, 4000) * MS, "jump": rng.choice([-3600, -20, -2, -1, 1, 2, 30, 3600]) * SEC // rng.choice([1, 2, 10])}
                           for _ in range(rng.choice([1, 1, 2, 3]))]
        return sc

    def fixup(self, sc):
        return sc

    def setup_env(self, w, sc):
        for s, down in sc["svc"].items():
            envs.ServiceServer(w, s, down)

    def check(self, w, sc):
        nodecheck.run(w, CLASSES)
        for d in w.ops:
            if d["cls"] in CLASSES and d["res"] and d["res"].startswith(("ERR", "EXC")) and not d["pre"] in nodecheck.BADSTATE \
                    and not d["cls"].startswith("Throttle"):
                w.violation("failed_internally", f"{d['op']} of {d['cls']} {d['node']} ended with {d['res']} (state {d['pre']})")
        nodeprop.blocking(w, sc, ("Wait", "WaitForService", "GetTimeNow"))
        self.died(w)


_ = T
PROP = C24()
