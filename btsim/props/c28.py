"""C28 A restarted process recovers its default tree."""
from .. import badtree, base, editgen, editmodel
from .. import tree as T
from ..base import MS, SEC
from .c13 import ERRS

PATH = "/disk/store/default.yaml"
DECOS = [d for d in base.DECOS if d != "Throttle"]
CMDS = ["TICK_PERIODICALLY"] * 4 + ["TICK_ONCE", "TICK_ONCE", "TICK_UNTIL_RESULT", "TICK_UNTIL_RESULT", "STOP", "RESET", "SHUTDOWN", "SETUP_AND_SHUTDOWN", "DO_NOTHING"]
BADPATHS = ["", "/disk/store/default.yaml", "file:///disk/store/none.yaml", "package://nopkg/x.yaml", "package://", "http://x", "file://", "file:///disk/store"]


class C28(base.Session):
    id = "C28"
    quick_total = 110
    nvariants = 2
    rule = "a run counts when a process that had been started with a default tree was judged"
    shrink_lists = ["clients", "clients.*.ops", "plan", "disk", "node_faults", "starts"]

    def nontrivial(self, r):
        return r["extra"].get("starts_judged", 0) > 0

    def gen(self, rng, i):
        def spec():
            if rng.random() < 0.5:
                return base.gen_tree(rng, rng.randint(1, 7), decos=DECOS)
            return editgen.gen_spec(rng, rng.randint(1, 6))
        s = spec()
        f = badtree.gen_file(rng, 0, s, editgen.gen_wirings(rng, s, rng.randint(0, 2))) if rng.random() < 0.45 else \
            {"tree": s, "wirings": editgen.gen_wirings(rng, s, rng.randint(0, 2)), "name": "default"}
        f["path"] = PATH
        other = [spec() for _ in range(2)]
        both = {"c": "x", "n": "x", "ch": [s, *other]}
        leaf = base.gen_script(rng, both, pd=0.2, teardown=0.1)
        sc = dict(tree=None, file=f, leaf=leaf, cmd=rng.choice(CMDS), rate=rng.choice([10.0, 10.0, 1.0, 25.0, 0.7]), path="file://" + PATH,
                  storage=rng.choice([["/disk/store"], ["/disk/store"], ["/disk/none"], [], ["/disk/store", "/disk/none"]]))
        if rng.random() < 0.1:
            sc["path"] = rng.choice(BADPATHS)
        ops = []
        for _ in range(rng.randint(0, 5)):
            x = rng.random()
            if x < 0.5:
                op = {"op": "save", "file": "default.yaml", "over": True, "name": "default", "tree": rng.choice(other)}
            elif x < 0.7:
                op = base.gen_control(rng)
            elif x < 0.8:
                op = {"op": "load_path", "path": "file://" + PATH}
            else:
                op = rng.choice([{"op": "name", "name": "x"}, {"op": "clear"}, {"op": "storages"}, {"op": "reload"}])
            ops.append(dict(op, wait=base.wait_choice(rng)))
        sc["clients"] = [{"name": "c1", "ops": ops}]
        # each entry: when this process dies (ns after its start; None: when the clients are done)
        sc["starts"] = [rng.choice([None, None, 10 * MS, 60 * MS, 200 * MS, 1 * SEC, 2500 * MS]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        if rng.random() < 0.6:
            sc["disk"] = []
            for _ in range(rng.choice([1, 1, 2])):
                x = rng.random()
                if x < 0.4:
                    d = {"kind": rng.choice(["open_r", "read"]), "nth": rng.choice([1, 1, 2, 3]), "fault": rng.choice(["EIO", "EACCES", "EMFILE", "ENOENT", "crash", "stall"]),
                         "ns": rng.choice([20, 500]) * MS}
                elif x < 0.55:
                    d = {"kind": "listdir", "nth": rng.choice([1, 2]), "fault": rng.choice(["EIO", "EACCES", "stall", "crash"]), "ns": 300 * MS}
                else:
                    d = {"kind": rng.choice(["write", "open_w", "rename", "fsync", "close"]), "nth": rng.choice([1, 1, 2]), "fault": rng.choice(["crash", "power", *ERRS])}
                    if d["kind"] == "write" and rng.random() < 0.6:
                        d.update(fault=rng.choice(["torn_crash", "torn_power", "torn_ENOSPC"]), frac=rng.choice([0, 0.4, 0.9]))
                sc["disk"].append(d)
        if rng.random() < 0.2:
            names = base.leaves(both)
            sc["node_faults"] = [{"node": rng.choice(names), "op": rng.choice(["setup", "tick", "tick", "shutdown"]), "nth": rng.randint(0, 2),
                                  "do": rng.choice(["ERR", "EXC", "KEY"])}] if names else []
        return sc

    def variants(self, rng, sc, r):
        for c in super().variants(rng, sc, r):
            if rng.random() < 0.5 and r["disk_ops"]:
                c["disk"] = [{"op": rng.randint(1, r["disk_ops"]), "fault": rng.choice(["crash", "crash", "power", "EIO", "EACCES"])}]
                c["plan"] = []
            yield c

    def params(self, sc):
        from .. import ros
        return {"tree_storage_paths": [p.replace("/disk", ros.W.scratch) for p in sc["storage"]],
                "default_tree": dict(load_default_tree=True, tree_path=sc["path"], tick_frequency_hz=sc["rate"], control_command=self.cmd(sc))}

    def cmd(self, sc):
        from ..world import CMD
        return CMD[sc["cmd"]]

    def setup_env(self, w, sc):
        badtree.write(w, sc["file"])

    def drive(self, w, sc):
        w.unanswered = []
        w.starts = []
        self.setup_env(w, sc)
        for k, life in enumerate([*sc["starts"], None]):
            last = k == len(sc["starts"])
            if last:
                w.disk.kindplan, w.disk.plan = [f for f in w.disk.kindplan if f["fault"] not in ("crash", "power", "torn_crash", "torn_power")], \
                    {n: f for n, f in w.disk.plan.items() if f["fault"] not in ("crash", "power")}
            if not self.life(w, sc, life, last):
                return
        if not self.ask(w, sc):
            return
        self.reference(w, sc)
        w.finished = True

    def life(self, w, sc, life, last):
        """One process from its start to its death."""
        crashes = w.faults["process_crash"]
        w.leaf_n.clear()
        st = dict(seq=len(w.k.log), t=w.k.now, ops=len(w.ops), calls=len(w.calls), last=last, judged=False)
        w.starts.append(st)
        w.disk.kindcount.clear()
        st["file"] = badtree.read(sc["path"][7:].replace("/disk", w.scratch)) if sc["path"].startswith("file://") else (None, "path")
        if life is not None:
            def die():
                if w.faults["process_crash"] == crashes:
                    w.crash()
            w.k.after(life, die, proc=None)
        w.start_process(self.params(sc))
        end = w.k.now + 60 * SEC
        while not w.main_up and w.k.now < end and not w.proc_exits and w.faults["process_crash"] == crashes:
            w.k.sleep(5 * MS)
        if w.faults["process_crash"] == crashes and not w.main_up:
            w.violation("not_up", f"the process did not come up: {w.proc_exits[-1:]}")
            return False
        if w.faults["process_crash"] == crashes:
            st["up"] = w.k.now
            if life is None or life > 3 * SEC:
                w.k.sleep(1 * MS)
                if w.faults["process_crash"] == crashes:
                    w.k.atomically(lambda: self.observe(w, st))
                w.k.sleep(1200 * MS)
                if w.faults["process_crash"] == crashes:
                    w.k.atomically(lambda: self.observe2(w, st))
            for op in sc["clients"][0]["ops"] if not last and sc.get("clients") else ():
                w.k.sleep(op.get("wait", 0))
                if w.faults["process_crash"] != crashes:
                    break
                if not self.one(w, sc, "c1", op):
                    if w.faults["process_crash"] == crashes:
                        return False
                    w.unanswered.clear()
                    break
        if not last and w.faults["process_crash"] == crashes:
            if life is not None and w.k.now < st["t"] + life:
                w.k.sleep(st["t"] + life - w.k.now + MS)
            if w.faults["process_crash"] == crashes:
                w.crash()
        return True

    def observe(self, w, st):
        m = w.manager()
        st.update(judged=True, snap=editmodel.snapshot(m), state=m.state, hits=[h for h in w.disk.hits if h[0] >= st["seq"] and h[2] != "stall"],
                  logs=[x for x in w.logs if x[0] >= st["t"]], clean=True)

    def observe2(self, w, st):
        st.update(trace=trace(w.ops[st["ops"]:]), state2=w.manager().state)

    def ask(self, w, sc):
        """Every service of the last process answers."""
        saved, w.sc, w.leaf = (w.sc, w.leaf), dict(w.sc, node_faults=[]), {}
        try:
            return self.ask_all(w, sc)
        finally:
            w.sc, w.leaf = saved

    def ask_all(self, w, sc):
        for op in ({"op": "storages"}, {"op": "nodes"}, {"op": "folders", "dir": "/disk/store"}, {"op": "packages"}, {"op": "name", "name": "n"},
                   {"op": "control", "cmd": "STOP"}, {"op": "control", "cmd": "SHUTDOWN"}, {"op": "pubdata", "v": True}, {"op": "clear"},
                   {"op": "load", "tree": {"c": "SimLeaf", "n": "q"}}, {"op": "add", "c": "SimLeaf", "n": "x"}, {"op": "remove", "n": "x", "rc": False},
                   {"op": "control", "cmd": "TICK_ONCE"}, {"op": "control", "cmd": "SHUTDOWN"}):
            if not self.one(w, sc, "asker", op):
                return False
            w.calls[-1].asked = True
            w.k.sleep(20 * MS)
        return True

    def reference(self, w, sc):
        """The same file loaded and commanded by hand in a process without default tree."""
        w.ref = None
        w.disk.kindplan, w.disk.plan = [], {}
        w.crash()
        w.leaf_n.clear()
        p = self.params(sc)
        p["default_tree"]["load_default_tree"] = False
        w.start_process(p)
        if not w.wait_up():
            return
        if not self.one(w, sc, "ref", {"op": "load_path", "path": sc["path"]}) or not w.calls[-1].resp.success:
            return
        a = len(w.ops)
        if not self.one(w, sc, "ref", {"op": "control", "cmd": sc["cmd"], "rate": sc["rate"]}):
            return
        c = w.calls[-1]
        w.k.sleep(1200 * MS)
        w.ref = (trace(w.ops[a:]), c.resp.success, w.manager().state, w.manager().tick_frequency_hz)

    def check(self, w, sc):
        if self.died(w) or w.violations:
            return
        for c in w.unanswered:
            return w.violation("no_answer", f"{c.srv} {c.op} was not answered")
        if not hasattr(w, "finished"):
            return w.violation("no_end", "the session did not end")
        for n, st in enumerate(w.starts):
            if st["judged"]:
                w.k.count("starts_judged", 1)
                self.start_ok(w, sc, n, st)
                if w.violations:
                    return
        asked = [c for c in w.calls if c.client == "asker"]
        for c, what in ((asked[9], "loading a tree"), (asked[10], "adding a node"), (asked[11], "removing a node"), (asked[12], "executing the tree")):
            if not c.resp.success:
                return w.violation("not_serving", f"after the start {what} failed: {c.resp.error_message}")

    def start_ok(self, w, sc, n, st):
        d, why = st["file"]
        if d is not None:
            why = badtree.inconsistent(d)
        hit = bool([h for h in st["hits"]])
        snap = st["snap"]
        what = f"process {n + 1} (default tree: {why or 'fine'}, {sc['cmd']})"
        empty = not snap["nodes"]
        if why is not None:
            w.k.count("bad_default", 1)
            if not empty:
                return w.violation("accepted_bad", f"{what} loaded it: {sorted(x['name'] for x in snap['nodes'].values())}")
            if st["state"] != "EDITABLE":
                return w.violation("not_editable", f"{what} came up {st['state']}")
            if not st["logs"]:
                return w.violation("unexplained", f"{what} logged no explanation")
            return
        if empty and d.get("nodes"):
            good = not sc["file"].get("spoil") and not sc["file"].get("mut")
            if good and not hit:
                return w.violation("not_loaded", f"{what} did not load it: {st['logs'][:1]}")
            if st["state"] != "EDITABLE":
                return w.violation("not_editable", f"{what} came up {st['state']}")
            if not st["logs"]:
                return w.violation("unexplained", f"{what} logged no explanation")
            w.k.count("refused_default", 1)
            return
        x = editmodel.diff(badtree.view(d), editmodel.comparable(snap, False))
        if x:
            return w.violation("wrong_tree", f"{what} (expected vs found): {x}")
        w.k.count("default_loaded", 1)
        if w.ref is None or st is not w.starts[-1] or not d.get("nodes"):
            return
        ops, ok, state, rate = w.ref
        w.k.count("compared", 1)
        if snap["rate"] != rate:
            return w.violation("wrong_rate", f"{what} ticks at {snap['rate']} Hz instead of {rate}")
        if not ok and not st["logs"]:
            return w.violation("unexplained", f"{what} could not execute it and logged no explanation")
        mine, ref = st["trace"], ops
        k = min(len(mine), len(ref))
        if mine[:k] != ref[:k]:
            j = next(j for j in range(k) if mine[j] != ref[j])
            return w.violation("executes_differently", f"{what}: step {j} is {mine[j]}, but {ref[j]} when it is loaded and commanded by hand")
        a, b = (sum(1 for t in tr if t[1] == "tick" and t[2] == 0) for tr in (mine, ref))
        if abs(a - b) > 2 and not sc.get("plan"):
            return w.violation("executes_differently", f"{what}: {a} ticks within 1.2 s, but {b} when it is loaded and commanded by hand")
        if len(mine) == len(ref) and st["state2"] != state and not sc.get("plan"):
            return w.violation("executes_differently", f"{what}: the tree is {st['state2']}, but {state} when it is loaded and commanded by hand")


def trace(ops):
    res = []
    for d in ops:
        if d.get("post") is None:       # not finished when the run ended
            break
        res.append((d["node"], d["op"], d["depth"], str(d.get("res")), str(d["post"])))
    return res


PROP = C28()
_ = T
