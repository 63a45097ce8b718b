"""C07 Observing the tree never changes what it does."""
from .. import base, editgen, execmodel, subgen
from .. import tree as T
from ..base import MS, SEC
from .c02 import gen_faults
from .c06 import loops_alive, wiring_data

DIAG = "debug/set_collect_node_diagnostics"
PRE = {"setup": "SETUP", "tick": "TICK", "untick": "UNTICK", "reset": "RESET", "shutdown": "SHUTDOWN"}
TIMELESS = [d for d in base.DECOS if d != "Throttle"]


class C07(base.Session):
    id = "C07"
    quick_total = 200
    nvariants = 2
    rule = "a run counts when the observed execution had at least one node operation; distinct by the hash of its whole event log"
    shrink_lists = ["program", "observers", "observers.*.ops", "plan", "node_faults"]

    def gen(self, rng, i):
        files = []
        if rng.random() < 0.4:
            for j in range(rng.choice([1, 1, 2])):
                files.append(subgen.gen_file(rng, j, files))
        spec = editgen.gen_spec(rng, rng.randint(1, 7)) if rng.random() < 0.4 else \
            base.gen_tree(rng, rng.randint(1, 8), leaf=["SimLeaf", "SimSource"], decos=TIMELESS)
        if files:
            subgen.put(rng, spec, files, rng.choice([1, 2]))
        wir = editgen.gen_wirings(rng, spec, rng.randint(0, 3))
        both = {"c": "x", "n": "x", "ch": [spec] + [f["tree"] for f in files]}
        leaf = base.gen_script(rng, both, pd=0.35, teardown=0.15)
        for s in T.names(both):
            if s["c"] in ("SimSource", "SimSink"):
                t = leaf[s["n"]]["tick"]
                for k, e in enumerate(t):
                    if rng.random() < 0.4:
                        t[k] = dict(e) if isinstance(e, dict) else {"r": e}
                        t[k]["out"] = {"out": rng.randint(0, 5)}
        sc = dict(tree=spec, wirings=wir, leaf=leaf, files=files, hz=rng.choice([5.0, 10.0, 20.0]))
        if rng.random() < 0.25 and base.leaves(both):
            sc["node_faults"] = gen_faults(rng, both)
        prog = []
        for _ in range(rng.randint(2, 7)):
            prog.append({"op": "control", "cmd": rng.choices(["TICK_ONCE", "TICK_UNTIL_RESULT", "STOP", "RESET", "SHUTDOWN",
                                                              "SETUP_AND_SHUTDOWN"], [5, 4, 2, 2, 1, 1])[0]})
        if rng.random() < 0.5:
            prog.append({"op": "control", "cmd": "TICK_PERIODICALLY", "stop": rng.choice([300, 900, 2500]) * MS})
        sc["program"] = prog
        names = [s["n"] for s in T.names(spec)]
        sc["observers"] = []
        for c in range(rng.choice([1, 1, 2])):
            ops = []
            for _ in range(rng.randint(4, 16)):
                x = rng.random()
                if x < 0.28:
                    op = {"op": "diag", "v": rng.random() < 0.6}
                elif x < 0.42:
                    op = {"op": "pubdata", "v": rng.random() < 0.7}
                elif x < 0.52:
                    op = {"op": "pubsub", "v": rng.random() < 0.5}
                elif x < 0.62:
                    op = {"op": "loglevel", "v": rng.choice(["debug", "info", "warn", "error", "fatal"])}
                elif x < 0.74:
                    op = {"op": "get_subtree", "n": rng.choice(names)}
                elif x < 0.86:
                    op = {"op": "gen_subtree", "ns": rng.sample(names, rng.randint(1, len(names)))}
                else:
                    op = rng.choice([{"op": "nodes"}, {"op": "nodes", "mods": ["ros_bt_py.nodes"]}, {"op": "nodes", "mods": ["no.such.module"]},
                                     {"op": "folders", "dir": "/disk/store"}, {"op": "storages"}, {"op": "packages"},
                                     {"op": "packages", "pkg": "ghost"}, {"op": "folders", "dir": "/nowhere"}])
                op["wait"] = int(rng.choice([0, 0, 1, 5, 30, 90, 200, 600]) * MS)
                ops.append(op)
            if c == 0 and rng.random() < 0.4:
                ops.insert(0, {"op": "diag", "v": True, "wait": 0})
            sc["observers"].append({"name": f"o{c + 1}", "ops": ops})
        return sc

    def nontrivial(self, r):
        return r["ops"] > 0

    def setup_env(self, w, sc):
        subgen.write_files(w, sc.get("files", []))
        import os
        os.makedirs(w.scratch + "/pkg/dir", exist_ok=True)

    def prepare(self, w, sc):
        super().prepare(w, sc)
        w.phases = []
        w.sinks = []

        def hook(w, d, phase):
            if phase == "end" and d["op"] == "tick" and d["depth"] == 0:
                m = w.manager()
                d["data"] = w.k.atomically(lambda: {f"{k[0]}.{k[1]}>{k[2]}.{k[3]}": v[0] for k, v in wiring_data(m).items()})
        w.inv.append(hook)

    def program(self, w, sc, cut=None):
        """Run the program; returns ([answers], index at which it was cut, whether the last command may be compared as a prefix only)"""
        ans = []
        for i, op in enumerate(sc["program"]):
            c = w.call(*base.build(w, op), client="p", op=op, timeout=self.call_timeout)
            if c.resp is None:
                if not c.lost:
                    w.unanswered.append(c)
                return ans, i, True
            ans.append((op["cmd"], c.resp.success, c.resp.tree_state, c.resp.error_message))
            if op["cmd"] == "TICK_PERIODICALLY" and c.resp.success:
                w.k.sleep(op["stop"])
                return ans, i, True
            if op["cmd"] == "TICK_UNTIL_RESULT" and c.resp.success:
                end = w.k.now + (4 * SEC if cut is None else 90 * SEC)
                while loops_alive(w) and w.k.now < end:
                    if cut is not None and cut[1] and cut[0] == i and w.k.now > end - 86 * SEC:
                        break
                    w.k.sleep(50 * MS)
                if loops_alive(w):
                    return ans, i, True
        return ans, len(sc["program"]), False

    def rest(self, w, sc):
        for cmd in ("STOP", "SHUTDOWN"):
            w.call("control_tree_execution", T.control(w, cmd), client="p", op={"op": "control", "cmd": cmd})

    def run_clients(self, w, sc):
        a0 = len(w.ops)
        r1 = self.program(w, sc)
        a1 = len(w.ops)
        self.rest(w, sc)
        w.settle()
        # a failed run may need the shutdown again
        c = w.call("reload", base.build(w, {"op": "reload"})[1], client="p", op={"op": "reload"})
        if c.resp is None or not c.resp.success:
            w.phases = None
            return
        w.leaf_n.clear()
        w.phase2_seq = len(w.k.log)
        stop = []

        def run(cl):
            for op in cl["ops"]:
                if op.get("wait"):
                    w.k.sleep(op["wait"])
                if stop or not self.one(w, sc, cl["name"], op):
                    return
        for cl in sc["observers"]:
            w.k.spawn("o_" + cl["name"], lambda cl=cl: run(cl), None)
        b0 = len(w.ops)
        r2 = self.program(w, sc, cut=(r1[1], r1[2]))
        b1 = len(w.ops)
        stop.append(1)
        w.phases = [(r1, w.ops[a0:a1]), (r2, w.ops[b0:b1])]

    def finish(self, w, sc):
        w.settle()
        w.final = []
        if w.phases is not None:
            self.recover(w, sc)

    # ------------------------------------------------------------------------------------------------ oracle ----
    def check(self, w, sc):
        if self.died(w):
            return
        for c in w.calls:
            if c.resp is None and not c.lost:
                w.violation("unanswered", f"{c.srv} was never answered")
                return
        self.diagnostics(w)
        if w.violations or not w.phases:
            return
        (r1, ops1), (r2, ops2) = w.phases
        for a, b in zip(r1[0], r2[0]):
            # the state in the answer to an asynchronous command depends on how far the tick has got by then
            k = 2 if a[0] in ("TICK_UNTIL_RESULT", "TICK_PERIODICALLY") else 3
            if a[:k] != b[:k]:
                w.violation("answer_differs", f"{a[0]} was answered {a[1:]} without observers, but {b[1:]} with observers")
                return
        l1, l2 = [self.op(o, ops1) for o in ops1], [self.op(o, ops2) for o in ops2]
        prefix = r1[2] or r2[2]
        if prefix and r1[1] != r2[1]:
            w.violation("progress_differs", f"the program got to step {r1[1]} without observers, to step {r2[1]} with observers")
            return
        n = min(len(l1), len(l2)) if prefix else max(len(l1), len(l2))
        for i in range(n):
            a = l1[i] if i < len(l1) else None
            b = l2[i] if i < len(l2) else None
            if a is None or b is None or a[:-1] != b[:-1] or (a[-1] != b[-1] and a[1] == "tick"):
                if prefix and i >= n - 60 and (a is None or b is None):
                    break
                w.violation("execution_differs", f"operation {i} was {self.show(a)} without observers, but {self.show(b)} with observers")
                return
        w.k.count("ops_compared", n)
        for c in w.calls:
            if c.s0 >= w.phase2_seq and c.client.startswith("o") and c.resp is not None:
                bad = c.op.get("mods") == ["no.such.module"] or c.op.get("pkg") == "ghost" or c.op.get("dir") == "/nowhere"
                ok = getattr(c.resp, "success", True)
                if ok == bad and c.op["op"] != "gen_subtree":  # a selection need not be connected
                    w.violation("query", f"{c.srv} {c.op} was answered with success={ok}: {getattr(c.resp, 'error_message', '')}")
                    return
                w.k.count("observer_requests", 1)

    @staticmethod
    def op(o, ops):
        return (o["node"], o["op"], o["depth"], o["res"] if o["t1"] is not None else "?", o["post"] if o["t1"] is not None else "?",
                o.get("data") if o["t1"] is not None else None)

    @staticmethod
    def show(x):
        if x is None:
            return "missing"
        return f"{x[1]} of {x[0]} = {x[3]}" + (f" with data {sorted(x[5].items())}" if x[5] else "")

    def diagnostics(self, w):
        """Records name their node, are properly nested, and exist for exactly the operations executed while they are switched on."""
        recs = []
        for seq, t, m in w.msgs("~/debug/node_diagnostics"):
            v = {x.key: x.value for x in m.values}
            recs.append((seq, w.pub_thr.get(seq), m.name, v))
        stacks = {}
        byseq = {}
        for seq, thr, name, v in recs:
            st = stacks.setdefault(thr, [])
            state = v.get("state", "?")
            kind, _, op = state.partition("_")
            if kind == "PRE":
                st.append((name, v.get("node_id"), op))
            elif kind == "POST":
                if not st or st[-1] != (name, v.get("node_id"), op):
                    w.violation("nesting", f"record {state} of {name} does not match the open record {st[-1] if st else 'none'}")
                    return
                st.pop()
            else:
                w.violation("record", f"a record has the state {state!r}")
                return
            if not name or not v.get("node_id") or not v.get("path", "").rstrip("]").endswith(repr(name)):
                w.violation("record", f"a record does not name its node: {name!r} {v}")
                return
            byseq.setdefault(thr, []).append((seq, name, kind, op, v.get("node_id")))
        toggles = sorted(((c.started, c.ended, c.req.data) for c in w.calls if c.srv == DIAG and c.started is not None), key=lambda x: x[0])
        import bisect
        for d in w.ops:
            if d["s1"] is None:
                continue
            on = False
            for a, b, v in toggles:
                if b is not None and b < d["s0"]:
                    on = v if on is not None or not self.racing(toggles, a, b) else None
                elif a <= d["s1"]:
                    on = None
                    break
            if on is None or self.any_racing(toggles, d["s0"]):
                continue
            lst = byseq.get(d["thr"], [])
            lo = bisect.bisect_left(lst, (d["s0"],))
            hi = bisect.bisect_right(lst, (d["s1"],))
            mine = [x for x in lst[lo:hi] if x[1] == d["node"] and x[3] == PRE[d["op"]] and x[4] == d["id"]]
            w.k.count("diag_ops_on" if on else "diag_ops_off", 1)
            if on and (not lst[lo:hi] or lst[lo][1:] != (d["node"], "PRE", PRE[d["op"]], d["id"]) or
                       lst[hi - 1][1:] != (d["node"], "POST", PRE[d["op"]], d["id"])):
                w.violation("missing_record", f"diagnostics were on, but {d['op']} of {d['node']} ({d['res']}) has no complete record")
                return
            if not on and mine:
                w.violation("unwanted_record", f"diagnostics were off, but {d['op']} of {d['node']} has a record")
                return

    @staticmethod
    def racing(toggles, a, b):
        return any((x, y) != (a, b) and x < b and (y is None or y > a) for x, y, _ in toggles)

    def any_racing(self, toggles, s):
        return any(self.racing(toggles, a, b) for a, b, _ in toggles if b is not None and b < s)


_ = execmodel
PROP = C07()
