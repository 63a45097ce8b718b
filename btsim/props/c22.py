"""C22 Topic subscriber nodes report the messages that really arrived."""
from .. import base, envs, nodeprop
from .. import tree as T
from ..kernel import MS, SEC

CLS = ("TopicSubscriber", "TopicMemorySubscriber")
CFG = ("topic_name", "topic_type", "reliable", "transient_local", "depth")
TOL = 2000


def topic_tree(rng, leaf, decos=("Inverter", "RepeatAlways", "UntilSuccess", "ThrottleSuccess"), sizes=(2, 5),
               comps=("Sequence", "Fallback", "MemorySequence", "MemoryFallback", "SimPair", "Parallel")):
    """A tree of flow control and decorators around the leaves made by leaf()."""
    cnt = [0]

    def node(d):
        x = rng.random()
        if d == 0 or x < 0.25:
            return leaf()
        cnt[0] += 1
        n = f"n{cnt[0]}"
        if x < 0.4:
            c = rng.choice(decos)
            s = {"c": c, "n": n, "ch": [node(d - 1)]}
            if c.startswith("Throttle"):
                s["i"] = {"tick_interval": rng.choice([0.0, 0.1, 0.5])}
            return s
        c = rng.choice(comps)
        ch = [node(d - 1) for _ in range(2 if c == "SimPair" else rng.randint(1, 3))]
        s = {"c": c, "n": n, "ch": ch}
        if c == "Parallel":
            s["i"] = {"needed_successes": rng.randint(1, len(ch))}
        return s
    for _ in range(50):
        cnt[0] = 0
        spec = node(3)
        if len(list(T.names(spec))) >= sizes[0]:
            break
    return spec


class C22(nodeprop.NodeProp):
    id = "C22"
    quick_total = 220
    nvariants = 2
    shrink_lists = nodeprop.NodeProp.shrink_lists + ["feed", "wirings", "clock"]
    rule = "a run counts when at least one tick of a topic subscriber was judged and at least one message was delivered to it"

    def nontrivial(self, r):
        return r["extra"].get("judged_ticks", 0) > 0 and r["extra"].get("deliveries", 0) > 0

    def gen(self, rng, i):
        cnt = [0]
        subs = []

        def leaf():
            cnt[0] += 1
            if rng.random() < 0.35:
                return {"c": "SimLeaf", "n": f"l{cnt[0]}"}
            s = {"c": rng.choice(["TopicSubscriber", "TopicSubscriber", "TopicMemorySubscriber"]), "n": f"t{cnt[0]}", "i": {
                "topic_name": f"/top{rng.randint(1, 2)}", "topic_type": "std_msgs/msg/String", "reliable": rng.random() < 0.5,
                "transient_local": rng.random() < 0.5, "depth": rng.choice([0, 1, 1, 2, 10])}}
            if s["c"] == "TopicMemorySubscriber":
                s["i"]["memory_delay"] = rng.choice([0.0, 0.05, 0.2, 0.5, 2.0])
            subs.append(s)
            return s
        while not subs:
            spec = topic_tree(rng, leaf)
        names = {s["n"] for s in T.names(spec)}
        subs = [s for s in subs if s["n"] in names]
        if not subs:
            return self.gen(rng, i)
        scr = base.gen_script(rng, spec, pd=0.25, teardown=0.0)
        wir = []
        if rng.random() < 0.3:
            s = rng.choice(subs)
            key, out, vals = rng.choice([("topic_name", "topic", ["/top1", "/top2", "/top1"]), ("reliable", "flag", [True, False, True]),
                                         ("transient_local", "flag", [True, False, True]), ("depth", "depth", [1, 2, 1])])
            del s["i"][key]
            s["dyn"] = [key]
            spec = {"c": "Sequence", "n": "top", "ch": [{"c": "SimNames", "n": "src"}, spec]}
            wir.append(["src", out, s["n"], key])
            scr["src"] = {"tick": [{"r": "S", "out": {out: v}} for v in [rng.choice(vals) for _ in range(rng.randint(1, 9))]]}
        ops = nodeprop.gen_ops(rng, rng.randint(2, 5))
        for _ in range(rng.randint(1, 2)):
            j = rng.randint(0, len(ops))
            ops[j:j] = [{"op": "control", "cmd": rng.choice(["TICK_PERIODICALLY", "TICK_UNTIL_RESULT"]), "rate": rng.choice([7.0, 20.0, 50.0]), "wait": 0},
                        {"op": "control", "cmd": rng.choice(["STOP", "STOP", "RESET", "SHUTDOWN"]), "wait": rng.choice([400, 1100, 2600]) * MS}]
        feed = {}
        for t in ("/top1", "/top2"):
            items, at = [], rng.choice([0, 0, 1, 400]) * MS
            for k in range(rng.choice([0, 1, 3, 10, 30])):
                e = {"at": at, "v": f"{t[-1]}:{k if rng.random() < 0.8 else 0}", "d": rng.choice([0, 0, 0, 1, 15, 40, 300]) * MS}
                if rng.random() < 0.1:
                    e[rng.choice(["drop", "dup"])] = True
                items.append(e)
                at += rng.choice([0, 1, 3, 30, 50, 100, 400, 1500]) * MS
            feed[t] = {"items": items, "reliable": rng.random() < 0.7, "latched": rng.random() < 0.6}
        sc = dict(tree=spec, leaf=scr, clients=[{"name": "c1", "ops": ops}], wirings=wir, feed=[dict(f, topic=t) for t, f in feed.items()],
                  hz=rng.choice([10.0, 20.0, 50.0]))
        if rng.random() < 0.15:
            sc["clients"].append({"name": "c2", "ops": [dict(base.gen_control(rng), wait=base.wait_choice(rng)) for _ in range(2)]})
        if rng.random() < 0.25:
            sc["clock"] = [{"at": rng.randint(50, 4000) * MS, "jump": rng.choice([-3600, -20, -2, -1, 1, 2, 30, 3600]) * SEC // rng.choice([1, 2, 10])}
                           for _ in range(rng.choice([1, 1, 2]))]
        return sc

    def setup_env(self, w, sc):
        from std_msgs.msg import String
        for f in sc["feed"]:
            envs.Feed(w, f["topic"], String, f["items"], f["reliable"], f["latched"])

    def shrink_more(self, sc):
        yield from super().shrink_more(sc)
        import copy
        for i, f in enumerate(sc["feed"]):
            for j in range(len(f["items"])):
                c = copy.deepcopy(sc)
                del c["feed"][i]["items"][j]
                yield c

    def finish(self, w, sc):
        w.settle()
        w.final = []
        w.before_rest = len(w.ops)
        self.recover(w, sc)
        w.left = [(s.topic, s.owner["node"]) for s in w.subs if s.owner is not None]

    def check(self, w, sc):
        if self.died(w) or not hasattr(w, "left"):
            return
        w.k.count("deliveries", len(w.deliveries))
        if w.left and w.manager().state in ("EDITABLE",) and not self.errors(w):
            w.violation("left", f"subscriptions left after shutdown: {w.left}")
        nodeprop.blocking(w, sc, CLS)
        nodes = {}
        for d in w.ops:
            if d["cls"] in CLS and d["depth"] >= 0:
                nodes.setdefault(id(d["obj"]), []).append(d)
        for ops in nodes.values():
            dl = [x for x in w.deliveries if x["sub"].owner is not None and x["sub"].owner["obj"] is ops[0]["obj"]]
            NodeModel(w, ops, dl).run()
            if w.violations:
                return

    @staticmethod
    def errors(w):
        return any(d["op"] == "shutdown" and (d["res"] or "ERR").startswith(("ERR", "EXC")) for d in w.ops)


class NodeModel:
    """All possible states of one subscriber node, given when each callback and each tick began and ended."""

    def __init__(self, w, ops, deliveries):
        self.w, self.ops, self.dl = w, ops, deliveries
        self.memory = ops[0]["cls"] == "TopicMemorySubscriber"
        self.name = ops[0]["node"]
        self.config = dict(memory=None)

    def bad(self, cls, d, what):
        self.w.violation(cls, f"{d['op']} of {d['cls']} {d['node']}: {what}")

    def run(self):
        ev = []
        for d in self.ops:
            ev.append((d["s0"], 1, "op+", d))
            if d["s1"] is not None:
                ev.append((d["s1"], 0, "op-", d))
        for x in self.dl:
            ev.append((x["s0"], 1, "cb+", x))
            if x["s1"] is not None:
                ev.append((x["s1"], 0, "cb-", x))
        ev.sort(key=lambda e: (e[0], e[1]))
        self.epoch = 0
        # a state: (message or None, open callbacks not yet effective, outcome of the tick in progress)
        self.states = {(None, frozenset(), None)}
        self.tick = None
        for s, _, kind, x in ev:
            if kind == "cb+":
                if x["sub"].s0 >= self.epoch:
                    self.states = {(m, o | {self.dl.index(x)}, t) for m, o, t in self.states}
                self.close()
            elif kind == "cb-":
                if x["sub"].s0 >= self.epoch:
                    i = self.dl.index(x)
                    self.states = {(m, o, t) for m, o, t in self.states if i not in o}
            elif kind == "op+":
                self.begin(x)
            else:
                self.end(x)
            if self.w.violations:
                return

    def close(self):
        todo = list(self.states)
        while todo:
            m, o, t = todo.pop()
            nxt = [(i, o - {i}, t) for i in o]
            if self.tick is not None and t is None:
                nxt.append((m if self.memory else None, o, ("none",) if m is None else ("got", m)))
            for n in nxt:
                if n not in self.states:
                    self.states.add(n)
                    todo.append(n)

    def restart(self, s):
        self.epoch = s
        self.states = {(None, frozenset(), None)}

    def begin(self, d):
        if d["op"] == "tick" and d["pre"] not in ("UNINITIALIZED", "SHUTDOWN", "BROKEN"):
            if any(v[0] is None for v in d["in"].values()):
                return
            cfg = {k: d["in"][k][0] for k in CFG}
            if any(d["in"][k][1] for k in CFG):
                self.restart(d["s0"])
            self.cfg = cfg
            self.tick = d
            self.close()

    def end(self, d):
        op, res = d["op"], d["res"]
        failed = res.startswith(("ERR", "EXC"))
        if op in ("setup", "reset", "shutdown") and not failed:
            self.restart(d["s1"])
        if op == "shutdown" and not failed:
            live = [s for s in self.w.subs_of(d["obj"]) if s.s0 <= d["s1"] and (s.s1 is None or s.s1 > d["s1"])]
            if live:
                self.bad("not_unsubscribed", d, f"still subscribed to {live[0].topic}")
        if self.tick is not d:
            return
        self.tick = None
        self.w.k.count("judged_ticks", 1)
        if failed:
            return self.bad("tick_failed", d, f"ended with {res}")
        live = [s for s in self.w.subs_of(d["obj"]) if s.s0 <= d["s1"] and (s.s1 is None or s.s1 > d["s1"])]
        if len(live) != 1:
            return self.bad("subscription", d, f"{len(live)} subscriptions after the tick")
        s = live[0]
        c = self.cfg
        want = (s.node.resolve_topic_name(c["topic_name"]), bool(c["reliable"]), bool(c["transient_local"]), c["depth"])
        is_ = (s.topic, s.qos.reliability.value == 1, s.qos.durability.value == 1, s.qos.depth)
        if want != is_:
            return self.bad("subscription", d, f"is subscribed with {is_} instead of {want}")
        ok = set()
        got = out = None
        if res == "SUCCEEDED":
            out = d["out"]["message"]
        elif res not in ("RUNNING", "FAILED" if self.memory else "RUNNING"):
            return self.bad("result", d, f"gave {res}")
        for m, o, t in self.states:
            if t is None:
                continue
            if t[0] == "none":
                if res == "RUNNING":
                    ok.add((m, o, None))
                continue
            x = self.dl[t[1]]
            if self.memory:
                can = self.ages(d, x)
            else:
                can = {"SUCCEEDED"}
            if res in can and (res != "SUCCEEDED" or self.data(x) == getattr(out, "data", None)):
                ok.add((m, o, None))
        if not ok:
            may = sorted({"RUNNING (no message)" if t[0] == "none" else "/".join(sorted(self.ages(d, self.dl[t[1]]) if self.memory else {"SUCCEEDED"}))
                          + " " + str(self.data(self.dl[t[1]])) for m, o, t in self.states if t is not None})
            got = f"{res} {getattr(out, 'data', '')}"
            return self.bad("wrong_report", d, f"gave {got}, expected {may}")
        if res == "SUCCEEDED":
            self.w.k.count("judged_success", 1)
        self.states = ok

    @staticmethod
    def data(x):
        from rclpy.serialization import deserialize_message
        return deserialize_message(x["data"], x["sub"].msg_type).data

    def ages(self, d, x):
        lim = d["obj"].inputs.get_value_as("memory_delay", float).unwrap() * SEC
        a = [d["w0"], d["w1"]]
        b = [x["w0"], x["w1"] if x["w1"] is not None else d["w1"]]
        lo, hi = min(a) - max(b), max(a) - min(b)
        out = set()
        if hi + TOL > lim:
            out.add("FAILED")
        if lo - TOL <= lim:
            out.add("SUCCEEDED")
        return out


PROP = C22()
