"""C29 Log messages reach the log topic exactly when they should."""
from .. import base, kernel, subgen
from .. import tree as T
from .c02 import gen_faults

LV = base.LEVELS
NAMES = ["debug", "info", "warn", "error", "fatal"]
CALL = {"debug": "logdebug", "info": "loginfo", "warn": "logwarn", "error": "logerr", "fatal": "logfatal"}


def managers(m, depth=0):
    out = [m]
    if depth < 8:
        for n in list(m.nodes.values()):
            s = getattr(n, "manager", None)
            if s is not None and hasattr(s, "nodes"):
                out += managers(s, depth + 1)
    return out


class C29(base.Session):
    id = "C29"
    quick_total = 200
    nvariants = 3
    rule = "a run counts when at least one message logged by a node was compared with the log topic"

    def nontrivial(self, r):
        return r["extra"].get("logged", 0) > 0

    def gen(self, rng, i):
        files = []
        if rng.random() < 0.4:
            for j in range(rng.choice([1, 2])):
                files.append(subgen.gen_file(rng, j, files))
        spec = base.gen_tree(rng, rng.randint(1, 6), leaf=["SimLeaf", "SimSource"])
        if files:
            subgen.put(rng, spec, files, rng.choice([1, 2]))
        both = {"c": "x", "n": "x", "ch": [spec] + [f["tree"] for f in files]}
        leaf = base.gen_script(rng, both, pd=0.3, teardown=0.1)
        logs = {}
        for n in base.leaves(both):
            for op in ("tick", "tick", "tick", "setup", "untick", "reset", "shutdown"):
                if rng.random() < (0.8 if op == "tick" else 0.4):
                    logs[f"{n}.{op}"] = [[rng.choice(NAMES) for _ in range(rng.choice([0, 1, 1, 2, 3]))] for _ in range(rng.randint(1, 4))]
        sc = dict(tree=spec, leaf=leaf, files=files, logs=logs, hz=rng.choice([5.0, 10.0, 20.0, 50.0]), clients=[])
        if rng.random() < 0.3 and base.leaves(both):
            sc["node_faults"] = gen_faults(rng, both)
        ops = []
        names = [s["n"] for s in T.names(spec)]
        for _ in range(rng.randint(3, 9)):
            x = rng.random()
            if x < 0.75:
                op = base.gen_control(rng, [5, 4, 4, 3, 3, 3, 2, 0])
            elif x < 0.87:
                op = {"op": "name", "name": rng.choice(["tree", "other", "ümläut tree", "a.b/c"])}
            else:
                op = rng.choice([{"op": "reload"}, {"op": "options", "c": "SimLeaf", "n": rng.choice(names), "new": "re" + rng.choice(names)}])
            op["wait"] = base.wait_choice(rng)
            ops.append(op)
        sc["clients"].append({"name": "c1", "ops": ops})
        for c in range(rng.choice([1, 1, 2])):
            ops = []
            for _ in range(rng.randint(2, 9)):
                if rng.random() < 0.8:
                    op = {"op": "loglevel", "v": rng.choice(NAMES + NAMES + [0, 1, 15, 25, 51, 255])}
                else:
                    op = rng.choice([{"op": "remove", "n": rng.choice(names)}, {"op": "control", "cmd": "TICK_ONCE"}, {"op": "nodes"}])
                op["wait"] = base.wait_choice(rng)
                ops.append(op)
            sc["clients"].append({"name": f"l{c + 1}", "ops": ops})
        return sc

    def setup_env(self, w, sc):
        subgen.write_files(w, sc.get("files", []))

    def prepare(self, w, sc):
        super().prepare(w, sc)
        w.logged = []
        cnt = [0]

        def emit_logs(node, op, n, e):
            tab = sc["logs"].get(f"{node.name}.{op}")
            if not tab:
                return
            for lv in tab[n % len(tab)]:
                cnt[0] += 1

                def owner():
                    m = w.manager()
                    for x in managers(m) if m is not None else []:
                        if node in x.nodes.values():
                            return str(x.tree_id.unwrap()), x.name
                    return None
                rec = dict(level=lv, text=f"message {cnt[0]} of {node.name}", node=str(node.node_id), name=node.name,
                           owner=w.k.atomically(owner), thr=kernel.current().name, s0=len(w.k.log), s1=None)
                w.logged.append(rec)
                getattr(node, CALL[lv])(rec["text"])
                rec["s1"] = len(w.k.log)
        w.on_leaf = emit_logs

    def check(self, w, sc):
        if self.died(w):
            return
        sets = sorted(((c.started, c.ended, c.req.min_log_level) for c in w.calls if c.srv == "set_log_level" and c.started is not None),
                      key=lambda x: x[0])
        msgs = w.msgs("~/log_messages")
        by = {}
        for seq, t, m in msgs:
            by.setdefault(m.msg, []).append((seq, t, m))
        last = {}
        for r in w.logged:
            if r["s1"] is None:
                continue
            w.k.count("logged", 1)
            lv = LV[r["level"]]
            levels = self.levels(sets, r["s0"], r["s1"])
            got = by.get(r["text"], [])
            if len(got) > 1:
                return w.violation("duplicate", f"a {r['level']} message was published {len(got)} times")
            if not got and all(x <= lv for x in levels):
                return w.violation("lost", f"a {r['level']} message was not published although the minimum level was {sorted(levels)}")
            if got and all(x > lv for x in levels):
                return w.violation("below", f"a {r['level']} message was published although the minimum level was {sorted(levels)}")
            if not got:
                w.k.count("suppressed", 1)
                continue
            seq, t, m = got[0]
            if not r["s0"] <= seq <= r["s1"]:
                return w.violation("late", "a message was published after the logging call had returned")
            if m.level != lv:
                return w.violation("level", f"a {r['level']} message was published with level {m.level}")
            if (m.node_id, m.node_name) != (r["node"], r["name"]):
                return w.violation("node", f"a message of node {r['name']} was published for node {m.node_name!r} ({m.node_id})")
            if r["owner"] and (m.tree_id, m.tree_name) != r["owner"]:
                return w.violation("tree", f"a message of a node in tree {r['owner']} was published for tree {(m.tree_id, m.tree_name)}")
            if seq < last.get(r["thr"], 0):
                return w.violation("order", "messages of one thread were published out of order")
            last[r["thr"]] = seq
        # messages of the system itself
        for seq, t, m in msgs:
            levels = self.levels(sets, max(0, seq - 40), seq + 40)
            if all(x > m.level for x in levels):
                return w.violation("below", f"the message {m.msg[:60]!r} of level {m.level} was published although the minimum level was {sorted(levels)}")
            if m.level not in LV.values():
                return w.violation("level", f"a message was published with level {m.level}")

    @staticmethod
    def levels(sets, a, b):
        """Minimum levels that may have been in effect between two points of the history."""
        done = [x for x in sets if x[1] is not None and x[1] < a]
        open_ = {x[2] for x in sets if x[0] <= b and (x[1] is None or x[1] >= a)}
        out = set(open_)
        if done:
            # those not surely overwritten by a later one
            for x in done:
                if not any(y[0] > x[1] for y in done):
                    out.add(x[2])
        else:
            out.add(20)
        return out


PROP = C29()
