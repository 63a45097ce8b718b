"""C21 Service nodes deliver the matching answer or fail in time."""
from .. import base, envs, nodeprop
from .. import tree as T
from ..kernel import MS, SEC
from .c22 import topic_tree

TOL = 2000
BAD = ("UNINITIALIZED", "SHUTDOWN", "BROKEN")


def gen_windows(rng, p=0.5):
    t, down = 0, []
    if rng.random() < p:
        for _ in range(rng.randint(1, 3)):
            a = t + rng.choice([0, 200, 900, 2500]) * MS
            b = a + rng.choice([50, 300, 1000, 3000, 20000]) * MS
            down.append([a, b])
            t = b + 100 * MS
    return down


def gen_clock(rng, p=0.25):
    if rng.random() >= p:
        return []
    return [{"at": rng.randint(50, 4000) * MS, "jump": rng.choice([-3600, -20, -2, -1, 1, 2, 30, 3600]) * SEC // rng.choice([1, 2, 10])}
            for _ in range(rng.choice([1, 1, 2]))]


def long_ops(rng, n=(2, 5), extra=(1, 3)):
    ops = nodeprop.gen_ops(rng, rng.randint(*n))
    for _ in range(rng.randint(*extra)):
        j = rng.randint(0, len(ops))
        ops[j:j] = [{"op": "control", "cmd": rng.choice(["TICK_PERIODICALLY", "TICK_UNTIL_RESULT"]), "rate": rng.choice([7.0, 20.0, 50.0]), "wait": 0},
                    {"op": "control", "cmd": rng.choice(["STOP", "STOP", "RESET", "SHUTDOWN"]), "wait": rng.choice([150, 400, 1100, 2600]) * MS}]
    return ops


COMPS = ("Sequence", "Fallback", "MemorySequence", "MemoryFallback", "SimPair", "SimPair", "Parallel")


class C21(nodeprop.NodeProp):
    id = "C21"
    quick_total = 150
    nvariants = 2
    shrink_lists = nodeprop.NodeProp.shrink_lists + ["wirings", "clock"]
    rule = "a run counts when a service node's tick was judged while a call of it was outstanding"

    def nontrivial(self, r):
        return r["extra"].get("judged_waiting", 0) > 0

    def gen(self, rng, i):
        cnt = [0]
        nodes = []

        def leaf():
            cnt[0] += 1
            if rng.random() < 0.35:
                return {"c": "SimLeaf", "n": f"l{cnt[0]}"}
            s = {"c": "Service", "n": f"v{cnt[0]}", "i": {
                "service_name": f"/svc{rng.randint(1, 2)}", "service_type": rng.choice(["std_srvs/srv/SetBool", "std_srvs/srv/SetBool", "std_srvs/srv/Trigger"]),
                "wait_for_response_seconds": rng.choice([0.0, 0.1, 0.3, 1.0, 5.0])}}
            nodes.append(s)
            return s
        while True:
            nodes.clear()
            cnt[0] = 0
            spec = topic_tree(rng, leaf, comps=COMPS)
            names = {s["n"] for s in T.names(spec)}
            nodes = [s for s in nodes if s["n"] in names]
            if nodes:
                break
        scr = base.gen_script(rng, spec, pd=0.25, teardown=0.05)
        wir = []
        src = []
        for s in nodes:
            if "SetBool" in s["i"]["service_type"] and rng.random() < 0.5:
                s["x"] = {"data": ["SimData", "flag"]}
                src.append((s["n"], "data", "SimSource", "flag", [True, False]))
            if rng.random() < 0.2:
                del s["i"]["service_name"]
                s["dyn"] = ["service_name"]
                src.append((s["n"], "service_name", "SimNames", "service", ["/svc1", "/svc2", "/svc1"]))
        for k, (n, key, c, out, vals) in enumerate(src):
            spec = {"c": "SimPair", "n": f"top{k}", "ch": [{"c": c, "n": f"src{k}"}, spec]} if rng.random() < 0.5 else \
                {"c": "Sequence", "n": f"top{k}", "ch": [{"c": c, "n": f"src{k}"}, spec]}
            wir.append([f"src{k}", out, n, key])
            hold = rng.choice([1, 1, 5, 20])
            scr[f"src{k}"] = {"tick": [{"r": "S", "out": {out: v}} for v in [rng.choice(vals) for _ in range(rng.randint(1, 6))] for _ in range(hold)]}
        sc = dict(tree=spec, leaf=scr, clients=[{"name": "c1", "ops": long_ops(rng)}], wirings=wir, hz=rng.choice([10.0, 20.0, 50.0]), svc={})
        for s in ("/svc1", "/svc2"):
            sc["svc"][s] = {"down": gen_windows(rng, 0.4), "script": [
                {"d": rng.choice([0, 0, 1, 20, 60, 99, 150, 400, 1200, 6000]) * MS, "drop": rng.random() < 0.1, "dup": rng.random() < 0.1}
                for _ in range(rng.randint(1, 8))]}
            if rng.random() < 0.1:
                sc["svc"][s] = None
        if rng.random() < 0.15:
            sc["clients"].append({"name": "c2", "ops": [dict(base.gen_control(rng), wait=base.wait_choice(rng)) for _ in range(2)]})
        sc["clock"] = gen_clock(rng)
        return sc

    def setup_env(self, w, sc):
        def reply(name, i, req):
            from std_srvs.srv import SetBool, Trigger
            t = SetBool if type(req).__name__.startswith("SetBool") else Trigger
            return t.Response(success=i % 3 != 0, message=f"{name}#{i}")
        for n, s in sc["svc"].items():
            if s is not None:
                envs.ServiceServer(w, n, s["down"], s["script"], lambda i, req, n=n: reply(n, i, req))

    def prepare(self, w, sc):
        super().prepare(w, sc)

        def hook(w, d, phase):
            """After every operation: which calls of this node are still outstanding."""
            if phase == "end" and d["cls"] == "Service":
                d["outstanding"] = [r["n"] for r in w.srv_requests if r["owner"] is not None and r["owner"]["obj"] is d["obj"] and
                                    r["d0"] is None and not r["future"].cancelled() and not r["client"].destroyed and r["n"] in r["client"].pending]
        w.inv.append(hook)

    def finish(self, w, sc):
        w.settle()
        w.final = []
        self.recover(w, sc)
        w.left = [(n, k) for k, n, o in w.node.resources if k == "client" and n.startswith("/svc")] if w.node is not None else []

    def check(self, w, sc):
        if self.died(w) or not hasattr(w, "left"):
            return
        nodeprop.blocking(w, sc, ("Service",))
        bad_shutdown = any(d["op"] == "shutdown" and (d["res"] or "ERR").startswith(("ERR", "EXC")) for d in w.ops)
        if w.left and w.manager().state == "EDITABLE" and not bad_shutdown:
            return w.violation("left", f"clients left after shutdown: {w.left}")
        nodes = {}
        for d in w.ops:
            if d["cls"] == "Service":
                nodes.setdefault(id(d["obj"]), []).append(d)
        by = {}
        for r in w.srv_requests:
            if r["owner"] is not None:
                by.setdefault(r["owner"]["i"], []).append(r)
        for ops in nodes.values():
            self.judge(w, ops, by)
            if w.violations:
                return

    def judge(self, w, ops, by):
        call = None                # the outstanding call: request record
        called = None              # (wall clock interval of the call)
        known = False
        for d in ops:
            if d["t1"] is None:
                return
            reqs = by.get(d["i"], [])
            failed = d["res"].startswith(("ERR", "EXC"))
            op = d["op"]

            def bad(cls, what, d=d):
                w.violation(cls, f"{d['op']} of {d['node']} (state {d['pre']}): {what}")
            if op != "tick":
                if reqs:
                    return bad("called_outside_tick", f"called {reqs[0]['name']}")
                if failed:
                    known = False
                    continue
                if op in ("setup", "untick", "reset", "shutdown"):
                    call, known = None, True
                    if d.get("outstanding"):
                        return bad("not_abandoned", "a call is still outstanding")
                continue
            if d["pre"] in BAD or any(v[0] is None for v in d["in"].values()):
                if reqs:
                    return bad("refused_tick", "called although the tick was refused")
                known = False
                continue
            if failed:
                return bad("tick_failed", f"ended with {d['res']}")
            if not known:
                return
            fields = [k for k in d["in"] if k not in ("service_type", "wait_for_response_seconds")]
            upd = [k for k in fields if d["in"][k][1]]
            if len(d.get("outstanding", ())) > 1:
                return bad("several", f"{len(d['outstanding'])} calls outstanding")
            if upd or d["pre"] == "IDLE":
                if len(reqs) != 1:
                    return bad("not_called", f"{len(reqs)} calls at the start of an execution (changed: {upd}), result {d['res']}")
                r = reqs[0]
                want = {k: d["in"][k][0] for k in fields if k != "service_name"}
                got = {k: getattr(r["req"], k) for k in want}
                name = r["client"].node.resolve_service_name(d["in"]["service_name"][0])
                if r["name"] != name or got != want or r["client"].srv_type is not d["in"]["service_type"][0]:
                    return bad("wrong_call", f"called {r['name']} with {got} instead of {name} with {want}")
                if d["res"] != "RUNNING":
                    return bad("result", f"gave {d['res']} although the service was just called")
                call = r
                called = sorted((d["w0"], d["w1"]))
                w.k.count("judged_calls", 1)
                continue
            if reqs:
                return bad("called_again", f"called {reqs[0]['name']} again without a new request")
            if call is None:
                if d["res"] != d["pre"]:
                    return bad("result", f"gave {d['res']}, its result was {d['pre']} and nothing changed")
                continue
            w.k.count("judged_waiting", 1)
            lim = d["in"]["wait_for_response_seconds"][0] * SEC
            now = sorted((d["w0"], d["w1"]))
            early = now[0] - called[1] - TOL > lim      # surely too late
            maybe = now[1] - called[0] + TOL > lim
            arrived = call["d1"] is not None and call["d1"] <= d["s0"]
            could = call["d0"] is not None and call["d0"] <= d["s1"]
            ok = set()
            if could:
                ok.add("SUCCEEDED")
                a = sorted((call["d0w"], call.get("d1w", call["d0w"])))
                if maybe and a[1] - called[0] + TOL > lim:
                    ok.add("FAILED")             # answered, but too late
            if not arrived:
                if maybe:
                    ok.add("FAILED")
                if not early:
                    ok.add("RUNNING")
            if d["res"] not in ok:
                return bad("wrong_result", f"gave {d['res']} {(now[0] - called[1]) / SEC} s after the call, timeout {lim / SEC} s, "
                           f"answer {'arrived' if arrived else 'arriving' if could else 'not there'}: expected {sorted(ok)}")
            if d["res"] == "SUCCEEDED":
                want = {k: getattr(call["resp"], k) for k in call["resp"].get_fields_and_field_types()}
                if d["out"] != want:
                    return bad("wrong_answer", f"has outputs {d['out']}, its call was answered {want}")
                w.k.count("judged_answers", 1)
                call = None
            elif d["res"] == "FAILED":
                w.k.count("judged_timeouts", 1)
                if d.get("outstanding"):
                    return bad("not_abandoned", "a call is still outstanding after the failure")
                call = None


PROP = C21()
