"""C25 Ended execution leaves no ROS resources behind."""
from .. import base, envs, nodeprop, subgen
from .. import tree as T
from ..kernel import MS, SEC
from .c20 import TYPES
from .c21 import gen_clock, gen_windows
from .c22 import topic_tree

COMPS = ("Sequence", "Fallback", "MemorySequence", "MemoryFallback", "SimPair", "Parallel")
HOLDS = {"TopicSubscriber": "subscription", "TopicMemorySubscriber": "subscription", "TopicPublisher": "publisher", "Service": "client",
         "WaitForService": "client", "Action": "action_client"}
STR = "std_msgs/msg/String"
_ = TYPES


def ros_node(rng, n):
    """A random node that uses ROS."""
    c = rng.choice(list(HOLDS))
    if c.startswith("Topic") and c != "TopicPublisher":
        i = {"topic_name": f"/top{rng.randint(1, 2)}", "topic_type": STR, "reliable": rng.random() < 0.5, "transient_local": rng.random() < 0.5,
             "depth": rng.choice([1, 2])}
        if c == "TopicMemorySubscriber":
            i["memory_delay"] = rng.choice([0.05, 0.2, 2.0])
        return {"c": c, "n": n, "i": i}
    if c == "TopicPublisher":
        return {"c": c, "n": n, "i": {"topic_name": f"/out{rng.randint(1, 2)}", "topic_type": STR, "reliable": True, "transient_local": False, "depth": 1},
                "dyn": ["message"]}
    if c == "Service":
        return {"c": c, "n": n, "i": {"service_name": f"/svc{rng.randint(1, 2)}", "service_type": "std_srvs/srv/Trigger",
                                      "wait_for_response_seconds": rng.choice([0.0, 0.1, 0.3, 1.0])}}
    if c == "WaitForService":
        return {"c": c, "n": n, "i": {"service_name": f"/svc{rng.randint(1, 2)}", "service_type": "std_srvs/srv/Trigger",
                                      "wait_for_service_seconds": rng.choice([0.0, 0.1, 0.3, 1.0])}}
    return {"c": c, "n": n, "i": {"action_name": "/act1", "action_type": "example_interfaces/action/Fibonacci",
                                  "timeout_seconds": rng.choice([0.0, 0.2, 0.5, 1.5])}}


NAMES = {"topic_name": ("topic", ["/top1", "/top2", "/top1"]), "service_name": ("service", ["/svc1", "/svc2", "/svc1"]),
         "action_name": ("action", ["/act1", "/act2"])}


def ros_tree(rng, pre, sizes=(2, 7), names=True, sub=None):
    """-> (spec, wirings, scripts). sub: makes a subtree node of that name, or None"""
    cnt = [0]
    wir, scr, src = [], {}, []

    def leaf():
        cnt[0] += 1
        n = f"{pre}l{cnt[0]}"
        x = rng.random()
        if x < 0.2:
            return {"c": "SimLeaf", "n": n}
        if sub and x < 0.4:
            s = sub(n)
            if s:
                return s
        s = ros_node(rng, n)
        if s["c"] == "TopicPublisher":
            wir.append([f"{n}r", "message", n, "message"])
            return {"c": "Sequence", "n": f"{n}q", "ch": [dict(ros_node_of(rng, "TopicSubscriber", f"{n}r")), s]}
        if names and rng.random() < 0.2:
            key = next((k for k in NAMES if k in s["i"]), None)
            if key:
                del s["i"][key]
                s["dyn"] = [key]
                src.append((n, key, *NAMES[key]))
        return s
    spec = topic_tree(rng, leaf, comps=COMPS, sizes=sizes)

    def rename(s):
        for x in T.names(s):
            if not x["n"].startswith(pre):
                x["n"] = pre + x["n"]
    rename(spec)
    have = {s["n"] for s in T.names(spec)}
    for k, (n, key, out, vals) in enumerate(src):
        if n not in have:
            continue
        spec = {"c": rng.choice(["SimPair", "Sequence"]), "n": f"{pre}top{k}", "ch": [{"c": "SimNames", "n": f"{pre}src{k}"}, spec]}
        wir.append([f"{pre}src{k}", out, n, key])
        hold = rng.choice([1, 2, 5])
        scr[f"{pre}src{k}"] = {"tick": [{"r": "S", "out": {out: v}} for v in [rng.choice(vals) for _ in range(rng.randint(1, 6))] for _ in range(hold)]}
    have = {s["n"] for s in T.names(spec)}
    return spec, [x for x in wir if x[0] in have and x[2] in have], scr


def ros_node_of(rng, c, n):
    while True:
        s = ros_node(rng, n)
        if s["c"] == c:
            return s


class C25(base.Session):
    id = "C25"
    quick_total = 140
    nvariants = 2
    rule = "a run counts when nodes had created ROS entities and the tree was at rest again afterwards"
    shrink_lists = base.Session.shrink_lists + ["wirings", "clock", "create", "feed"]

    def nontrivial(self, r):
        x = r["extra"]
        return x.get("rest_after_use", 0) > 0

    def gen(self, rng, i):
        files = []
        if rng.random() < 0.5:
            for k in range(rng.randint(1, 2)):
                prev = list(files)
                s, wr, sc_ = ros_tree(rng, f"f{k}_", sizes=(1, 4), sub=(lambda n: subgen.use(rng.choice(prev), n)) if prev else None)
                files.append({"path": f"/disk/store/sub{k}.yaml", "tree": s, "wirings": wr, "name": f"sub{k}", "scr": sc_})
        use = (lambda n: subgen.use(rng.choice(files), n)) if files else None
        spec, wir, scr = ros_tree(rng, "", sub=use)
        others = []
        for k in range(2):
            others.append(ros_tree(rng, f"o{k}_", sizes=(1, 5), sub=use))
        both = {"c": "x", "n": "x", "ch": [spec, *[o[0] for o in others], *[f["tree"] for f in files]]}
        leaf = base.gen_script(rng, both, pd=0.2, teardown=0.08)
        for x in (scr, *[o[2] for o in others], *[f["scr"] for f in files]):
            leaf.update(x)
        names = [s["n"] for s in T.names(spec)]
        cls = {s["n"]: s for s in T.names(spec)}
        ops = []
        for _ in range(rng.randint(2, 5)):
            ops += nodeprop.gen_ops(rng, rng.randint(1, 2))
            ops += [{"op": "control", "cmd": rng.choice(["TICK_PERIODICALLY", "TICK_UNTIL_RESULT"]), "rate": rng.choice([7.0, 20.0, 50.0]), "wait": 0}]
            if rng.random() < 0.8:
                ops += [{"op": "control", "cmd": rng.choice(["STOP", "STOP", "SHUTDOWN", "SHUTDOWN", "RESET"]), "wait": rng.choice([0, 20, 150, 400, 1100]) * MS}]
            if rng.random() < 0.75:
                ops.append({"op": "control", "cmd": "SHUTDOWN", "wait": rng.choice([0, 0, 5, 100]) * MS})
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                ops.append(dict(self.gen_edit(rng, names, cls, others, files), wait=rng.choice([0, 0, 3 * MS, 50 * MS])))
        sc = dict(tree=spec, wirings=wir, files=files, leaf=leaf, hz=rng.choice([10.0, 20.0, 50.0]), clients=[{"name": "c1", "ops": ops}])
        ds = [0, 0, 1, 10, 30, 90, 150, 400, 1200, 5000]
        sc["act"] = {n: {"down": gen_windows(rng, 0.35), "script": [dict(
            accept=rng.random() < 0.85, ad=rng.choice(ds) * MS, rd=rng.choice(ds + [150, 400, 1200]) * MS,
            status=rng.choice("SSSSAC"), fb=[rng.choice(ds) * MS for _ in range(rng.choice([0, 1, 2]))],
            fbd=[0], resd=rng.choice([0, 0, 0, 60, 500]) * MS, cd=rng.choice([0, 0, 1, 40, 300, 4000]) * MS, ignore_cancel=rng.random() < 0.1,
            drop=rng.choice(["goal", "accept", "result", "cancel", "canceled"]) if rng.random() < 0.2 else None)
            for _ in range(rng.randint(1, 5))]} for n in ("/act1", "/act2")}
        sc["svc"] = {n: {"down": gen_windows(rng, 0.4), "script": [
            {"d": rng.choice([0, 0, 1, 20, 99, 400, 1200, 6000]) * MS, "drop": rng.random() < 0.1, "dup": rng.random() < 0.1}
            for _ in range(rng.randint(1, 8))]} for n in ("/svc1", "/svc2")}
        sc["feed"] = []
        for t in ("/top1", "/top2"):
            items, at = [], 0
            for k in range(rng.choice([0, 3, 10, 30])):
                at += rng.choice([0, 1, 3, 30, 50, 100, 400]) * MS
                items.append({"at": at, "v": f"{k}", "d": rng.choice([0, 0, 15, 300]) * MS})
            sc["feed"].append({"topic": t, "items": items, "reliable": rng.random() < 0.7, "latched": rng.random() < 0.6})
        if rng.random() < 0.3:
            names = base.leaves(both)
            if names:
                sc["node_faults"] = [{"node": rng.choice(names), "op": rng.choice(["setup", "tick", "tick", "untick", "reset", "shutdown", "shutdown"]),
                                      "nth": rng.randint(0, 3), "do": rng.choice(["ERR", "ERR", "EXC", "KEY"])} for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.35:
            sc["create"] = [{"kind": rng.choice(["subscription", "subscription", "publisher", "publisher", "client", "action_client", "rate"]), "nth": rng.choice([0, 0, 1, 3])}
                            for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.2:
            sc["clients"].append({"name": "c2", "ops": [dict(base.gen_control(rng), wait=base.wait_choice(rng)) for _ in range(rng.randint(1, 4))]})
        sc["clock"] = gen_clock(rng, 0.1)
        return sc

    def gen_edit(self, rng, names, cls, others, files):
        x = rng.random()
        n = rng.choice(names)
        if x < 0.2:
            c = [m for m in names if "i" in cls[m] and any(k in cls[m]["i"] for k in NAMES)]
            if c:
                n = rng.choice(c)
                key = next(k for k in NAMES if k in cls[n]["i"])
                return {"op": "options", "n": n, "c": cls[n]["c"], "i": {key: rng.choice(NAMES[key][1])}}
        if x < 0.25:
            c = [m for m in names if cls[m]["c"] == "Subtree"]
            if c:
                return {"op": "options", "n": rng.choice(c), "c": "Subtree", "i": {"subtree_path": "file://" + rng.choice(files)["path"]}}
        if x < 0.35:
            return {"op": "remove", "n": n, "rc": rng.random() < 0.6}
        if x < 0.45:
            if rng.random() < 0.5:
                return {"op": "morph", "n": n, "c": "SimLeaf", "new": n}
            s = ros_node_of(rng, rng.choice([c for c in HOLDS if c != "TopicPublisher"]), n)
            return {"op": "morph", "n": n, "c": s["c"], "new": n, "i": s["i"]}
        if x < 0.55:
            s = ros_node_of(rng, rng.choice([c for c in HOLDS if c != "TopicPublisher"]), f"a{rng.randint(1, 3)}")
            return {"op": "add_at", "c": s["c"], "n": s["n"], "i": s["i"], "parent": n, "idx": rng.choice([0, -1])}
        if x < 0.6:
            return {"op": "replace", "n": n, "by": rng.choice(names)}
        if x < 0.65:
            return {"op": "move", "n": n, "parent": rng.choice(names), "idx": 0}
        if x < 0.73:
            o = rng.choice(others)
            return {"op": "load", "tree": o[0], "wirings": o[1], "mut": [["dangling", 0, 0]] if rng.random() < 0.2 else []}
        if x < 0.78 and files:
            return {"op": "load_path", "path": "file://" + rng.choice(files)["path"]}
        if x < 0.83:
            return {"op": "reload"}
        if x < 0.85:
            return {"op": "clear"}
        if x < 0.92:
            return {"op": "gen_subtree", "ns": rng.sample(names, rng.randint(1, len(names)))}
        return rng.choice([{"op": "get_subtree", "n": n}, {"op": "nodes"}, {"op": "pubsub", "v": True}, {"op": "name", "name": "x"}])

    def setup_env(self, w, sc):
        from example_interfaces.action import Fibonacci
        from std_msgs.msg import String
        from std_srvs.srv import Trigger
        subgen.write_files(w, sc["files"])
        for f in sc["feed"]:
            envs.Feed(w, f["topic"], String, f["items"], f["reliable"], f["latched"])
        for n, s in sc["svc"].items():
            envs.ServiceServer(w, n, s["down"], s["script"], lambda i, req, n=n: Trigger.Response(success=i % 3 != 0, message=f"{n}#{i}"))
        for n, s in sc["act"].items():
            envs.ActionServer(w, n, Fibonacci, s["down"], s["script"])

    def prepare(self, w, sc):
        super().prepare(w, sc)
        w.busy_clients = 0
        w.used = False
        w.base = None
        w.inv.append(lambda w, d, phase: self.bounded(w) if phase == "end" else None)

    def start(self, w, sc):
        super().start(w, sc)

    def one(self, w, sc, name, op):
        if w.base is None:
            w.base = {id(o) for k, n, o in w.node.resources}
        w.busy_clients += 1
        try:
            r = super().one(w, sc, name, op)
        finally:
            w.busy_clients -= 1
        if r and not w.busy_clients:
            w.k.atomically(lambda: self.rest(w))
        return r

    # -- oracle ---------------------------------------------------------------------------------------------------
    def live(self, w):
        """Entities that nodes or the execution created: action clients that still wait for an answer to a goal are released later."""
        out = []
        for k, n, o in w.node.resources:
            if id(o) in w.base:
                continue
            if k == "action_client" and any(g["client"] is o and g["a1"] is None for g in w.goals):
                continue
            out.append((k, n))
        return out

    def holders(self, m, cnt):
        for n in m.nodes.values():
            c = type(n).__name__
            if c in HOLDS:
                cnt[HOLDS[c]] = cnt.get(HOLDS[c], 0) + 1
            elif c == "Subtree" and hasattr(n, "manager"):
                self.holders(n.manager, cnt)
        return cnt

    def bounded(self, w):
        if w.base is None or w.node is None or w.violations:
            return
        live = self.live(w)
        cnt = self.holders(w.manager(), {"timer": 1})
        w.k.count("bound_checks", 1)
        for kind in {k for k, n in live}:
            have = sorted(n for k, n in live if k == kind)
            if have and kind != "timer":
                w.used = True
                w.k.count("live_" + kind, 1)
            if len(have) > cnt.get(kind, 0):
                return w.violation("unbounded", f"{len(have)} {kind}s exist ({have}) while the tree has {cnt.get(kind, 0)} nodes that use one")

    def rest(self, w):
        m = w.manager()
        if w.node is None or w.violations or m is None or m.state != "EDITABLE":
            return
        w.k.count("rest_checks", 1)
        live = self.live(w)
        if live:
            return w.violation("left", f"the tree was shut down, but {sorted(live)} still exist")
        if w.used:
            w.k.count("rest_after_use", 1)
            w.used = False

    def finish(self, w, sc):
        w.settle()
        w.final = []
        if w.base is None:
            w.base = {id(o) for k, n, o in w.node.resources}
        self.recover(w, sc)
        if w.node is not None and w.final and w.final[-1].resp is not None:
            w.k.atomically(lambda: self.rest(w))
        # the node keeps serving
        c = w.call("control_tree_execution", T.control(w, "SHUTDOWN"), client="final", timeout=60 * SEC, op={"op": "control", "cmd": "SHUTDOWN"})
        if c.resp is None and not c.lost:
            w.unanswered.append(c)

    def check(self, w, sc):
        if self.died(w) or w.violations:
            return
        for c in w.unanswered:
            return w.violation("no_answer", f"{c.srv} {c.op} was not answered")
        if w.node is not None and w.node.bad_destroy:
            return w.violation("destroyed_twice", f"{w.node.bad_destroy} entities were destroyed that did not exist")


PROP = C25()
