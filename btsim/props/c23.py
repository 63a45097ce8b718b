"""C23 Topic publisher nodes publish each new message exactly once."""
from .. import base, envs, nodeprop
from .. import tree as T
from ..kernel import MS
from .c22 import topic_tree

CFG = ("topic_name", "topic_type", "reliable", "transient_local", "depth")
TYPES = {"text": ("std_msgs/msg/String", "text"), "num": ("std_msgs/msg/Int64", "num")}


class C23(nodeprop.NodeProp):
    id = "C23"
    quick_total = 250
    nvariants = 1
    shrink_lists = nodeprop.NodeProp.shrink_lists + ["wirings", "feed"]
    rule = "a run counts when a publisher node published at least one message and at least one of its ticks did not have to publish"

    def nontrivial(self, r):
        return r["extra"].get("published", 0) > 0 and r["extra"].get("quiet_ticks", 0) > 0

    def gen(self, rng, i):
        while True:
            sc = self.gen1(rng)
            if sc:
                return sc

    def gen1(self, rng):
        wir, top, scr, pubs = [], [], {}, []
        nsrc = rng.randint(1, 3)
        types = []
        for k in range(nsrc):
            t = rng.choice(["text", "text", "num"])
            types.append(t)
            top += [{"c": "SimData", "n": f"s{k}"},
                    {"c": "FieldsToMessage", "n": f"f{k}", "i": {"output_type": TYPES[t][0]}, "x": {"data": ["SimData", TYPES[t][1]]}}]
            wir.append([f"s{k}", "o_" + TYPES[t][1], f"f{k}", "data"])
            seq = []
            for j in range(rng.randint(1, 12)):
                e = {"r": "S" if rng.random() < 0.93 else rng.choice("FR")}
                if j == 0 or rng.random() < 0.6:
                    e["out"] = {"o_" + TYPES[t][1]: rng.choice(["a", "a", "b", "c", ""]) if t == "text" else rng.choice([0, 0, 1, 2])}
                seq.append(e)
            scr[f"s{k}"] = {"tick": {"seq": seq, "cycle": rng.random() < 0.8}}
        cnt = [0]
        relay = rng.random() < 0.3

        def leaf():
            cnt[0] += 1
            x = rng.random()
            if x < 0.3:
                return {"c": "SimLeaf", "n": f"l{cnt[0]}"}
            p = {"c": "TopicPublisher", "n": f"p{cnt[0]}", "i": {
                "topic_name": f"/out{rng.randint(1, 2)}", "reliable": rng.random() < 0.5,
                "transient_local": rng.random() < 0.5, "depth": rng.choice([0, 1, 1, 2, 10])}, "dyn": ["message"]}
            pubs.append(p)
            if relay and x < 0.6:
                p["i"]["topic_type"] = TYPES["text"][0]
                r = f"r{cnt[0]}"
                wir.append([r, "message", p["n"], "message"])
                return {"c": rng.choice(["Sequence", "MemorySequence"]), "n": "q" + r, "ch": [
                    {"c": rng.choice(["TopicSubscriber", "TopicMemorySubscriber"]), "n": r, "i": {
                        "topic_name": "/in", "topic_type": TYPES["text"][0], "reliable": False, "transient_local": False, "depth": 10}}, p]}
            k = rng.randrange(nsrc)
            p["i"]["topic_type"] = TYPES[types[k]][0]
            wir.append([f"f{k}", "out", p["n"], "message"])
            return p
        body = topic_tree(rng, leaf, sizes=(1, 1), comps=["Sequence", "Fallback", "MemorySequence", "Parallel", "SimPair", "SimPair", "SimPair"])
        names = {s["n"] for s in T.names(body)}
        pubs = [p for p in pubs if p["n"] in names]
        wir = [x for x in wir if x[2] in names or x[2][0] == "f"]
        if not pubs:
            return None
        for s in T.names(body):
            if s["c"] == "TopicMemorySubscriber":
                s["i"]["memory_delay"] = rng.choice([0.1, 1.0])
        if rng.random() < 0.3:
            p = rng.choice(pubs)
            key, out, vals = rng.choice([("topic_name", "topic", ["/out1", "/out2"]), ("reliable", "flag", [True, False]),
                                         ("transient_local", "flag", [True, False])])
            del p["i"][key]
            p["dyn"].append(key)
            top.insert(0, {"c": "SimNames", "n": "src"})
            wir.append(["src", out, p["n"], key])
            scr["src"] = {"tick": [{"r": "S", "out": {out: rng.choice(vals)}} for _ in range(rng.randint(1, 9))]}
        if rng.random() < 0.4:
            spec = {"c": rng.choice(["Sequence", "Sequence", "MemorySequence"]), "n": "top", "ch": top + [body]}
        else:
            # (a sequence resets its children whenever it starts again)
            spec = body
            for k, s in reversed(list(enumerate(top))):
                spec = {"c": "SimPair", "n": f"top{k}", "ch": [s, spec]}
        scr.update({k: v for k, v in base.gen_script(rng, body, pd=0.15, teardown=0.0).items()})
        sc = dict(tree=spec, leaf=scr, clients=[{"name": "c1", "ops": nodeprop.gen_ops(rng, rng.randint(3, 7))}], wirings=wir,
                  hz=rng.choice([10.0, 20.0, 50.0]), feed=[])
        if relay:
            at = 0
            for k in range(rng.choice([3, 10, 30])):
                sc["feed"].append({"at": at, "v": rng.choice(["x", "x", "y", "z"]), "d": rng.choice([0, 0, 15, 300]) * MS})
                at += rng.choice([1, 30, 100, 400]) * MS
        if rng.random() < 0.15:
            sc["clients"].append({"name": "c2", "ops": [dict(base.gen_control(rng), wait=base.wait_choice(rng)) for _ in range(2)]})
        if rng.random() < 0.2:
            sims = [s["n"] for s in T.names(spec) if s["c"] in ("SimLeaf", "SimData")]
            sc["node_faults"] = [{"node": rng.choice(sims), "op": rng.choice(["tick", "tick", "untick", "reset", "shutdown"]), "nth": rng.randint(0, 4),
                                  "do": rng.choice(["ERR", "EXC"])}]
        return sc

    def setup_env(self, w, sc):
        from std_msgs.msg import String
        envs.Feed(w, "/in", String, sc["feed"])

    def finish(self, w, sc):
        w.settle()
        w.final = []
        self.recover(w, sc)
        w.left = [(n, k) for k, n, o in w.node.resources if k == "publisher" and n.startswith("/out")] if w.node is not None else []

    def check(self, w, sc):
        if self.died(w) or not hasattr(w, "left"):
            return
        nodeprop.blocking(w, sc, ("TopicPublisher",))
        bad_shutdown = any(d["op"] == "shutdown" and (d["res"] or "ERR").startswith(("ERR", "EXC")) for d in w.ops)
        if w.left and w.manager().state == "EDITABLE" and not bad_shutdown:
            return w.violation("left", f"publishers left after shutdown: {w.left}")
        src = {x[2]: x[0] for x in sc["wirings"] if x[3] == "message"}
        made = {}                   # source node -> [(end of its tick, message)]
        for d in w.ops:
            if d["op"] == "tick" and d["cls"] in ("FieldsToMessage", "TopicSubscriber", "TopicMemorySubscriber") and d["t1"] is not None:
                m = d["out"].get("message", d["out"].get("out"))
                if m is not None:
                    made.setdefault(d["node"], []).append((d["s1"], m))
        by = {}
        for seq, op, pub, data in w.node_pubs:
            if op["cls"] == "TopicPublisher":
                by.setdefault(op["i"], []).append((pub, data))
        nodes = {}
        for d in w.ops:
            if d["cls"] == "TopicPublisher":
                nodes.setdefault(id(d["obj"]), []).append(d)
        for ops in nodes.values():
            self.judge(w, ops, by, made.get(src.get(ops[0]["node"]), []))
            if w.violations:
                return

    def judge(self, w, ops, by, made):
        from rclpy.serialization import deserialize_message
        fresh, last, known, last_s = True, None, False, 0
        for d in ops:
            if d["t1"] is None:
                return
            out = by.get(d["i"], [])
            failed = d["res"].startswith(("ERR", "EXC"))

            def bad(cls, what, d=d):
                w.violation(cls, f"{d['op']} of {d['node']}: {what}")
            if d["op"] != "tick":
                if out:
                    return bad("outside_tick", "published a message")
                if d["op"] in ("setup", "reset") and not failed:
                    fresh = known = True
                if failed:
                    known = False
                continue
            if d["pre"] in ("UNINITIALIZED", "SHUTDOWN", "BROKEN") or any(v[0] is None for v in d["in"].values()):
                if out:
                    return bad("refused_tick", "published although the tick was refused")
                known = False
                continue
            if failed:
                return bad("tick_failed", f"ended with {d['res']}")
            if d["res"] != "SUCCEEDED":
                return bad("result", f"gave {d['res']}")
            msg = d["in"]["message"][0]
            if len(out) > 1:
                return bad("repeated", f"published {len(out)} messages in one tick")
            if known:
                changed = [m for s, m in made if last_s <= s <= d["s0"] and m != last]
                want = {1} if fresh or msg != last else {0, 1} if changed else {0}
                if len(out) not in want:
                    if out:
                        return bad("published_again", f"published {msg} again, which had not changed since its last tick")
                    return bad("not_published", f"did not publish its {'first' if fresh else 'new'} message {msg} (before: {last})")
            if out:
                pub, data = out[0]
                if deserialize_message(data, pub.msg_type) != msg:
                    return bad("other_message", f"published {deserialize_message(data, pub.msg_type)} instead of {msg}")
                c = {k: d["in"][k][0] for k in CFG}
                want = (pub.node.resolve_topic_name(c["topic_name"]), bool(c["reliable"]), bool(c["transient_local"]), c["depth"], c["topic_type"])
                is_ = (pub.topic, pub.qos.reliability.value == 1, pub.qos.durability.value == 1, pub.qos.depth, pub.msg_type)
                if want != is_:
                    return bad("publisher", f"published with {is_} instead of {want}")
                w.k.count("published", 1)
            else:
                w.k.count("quiet_ticks", 1)
            fresh, last, last_s, known = False, msg, d["s1"], True


PROP = C23()
