"""C19 A subtree node behaves like the tree it loads."""
import copy
import os

from .. import base, editgen, editmodel, subgen
from .. import tree as T
from ..base import MS, SEC
from .c02 import gen_faults
from .c07 import C07, TIMELESS

GOOD = {"ok0", "ok1"}
SURELY_BAD = {"missing", "empty", "garbage", "dir", "self", "mutual", "class", "list", "dangling"}


def inline(spec, files):
    """The same tree with every subtree node replaced by the tree it refers to."""
    by = {f["path"]: f for f in files}

    def walk(s):
        if s["c"] == "Subtree":
            return walk(copy.deepcopy(by[s["_f"]]["tree"]))
        s = dict(s)
        if s.get("ch"):
            s["ch"] = [walk(c) for c in s["ch"]]
        return s
    return walk(spec)


def used(spec, files):
    by = {f["path"]: f for f in files}
    for s in T.names(spec):
        if s["c"] == "Subtree":
            yield s["n"], by[s["_f"]]
            yield from used(by[s["_f"]]["tree"], files)


def flat_wirings(sc):
    out = []
    port = {}
    for n, f in used(sc["tree"], sc["files"]):
        for s in T.names(f["tree"]):
            port[n, subgen.node_id(f["tree"], s["n"])] = s["n"]

    def end(n, k):
        while "." in k:
            nid, k = k.rsplit(".", 1) if k.count(".") == 1 else k.split(".", 1)
            n = port[n, nid]
        return [n, k]
    for a, ak, b, bk in sc["wirings"]:
        out.append(end(a, ak) + end(b, bk))
    for n, f in used(sc["tree"], sc["files"]):
        for a, ak, b, bk in f.get("wirings", ()):
            x = end(a, ak) + end(b, bk)
            if x not in out:
                out.append(x)
    return out


class C19(type(C07())):
    id = "C19"
    quick_total = 160
    nvariants = 1
    rule = ("a run counts when operations of nodes inside a subtree were compared with those of the same tree without the subtree, or when a request that "
            "needs a broken subtree file was answered")
    shrink_lists = ["program", "wirings", "ops", "node_faults", "plan"]

    def nontrivial(self, r):
        return r["extra"].get("inner_ops", 0) + r["extra"].get("bad_answers", 0) > 0

    def gen(self, rng, i):
        return self.gen_equal(rng) if rng.random() < 0.65 else self.gen_broken(rng)

    def gen_equal(self, rng):
        while True:
            files = []
            for j in range(rng.choice([1, 1, 2, 2, 3])):
                files.append(subgen.gen_file(rng, j, files, size=rng.choice([1, 3, 6]), pio=0.5))
            spec = editgen.gen_spec(rng, rng.randint(1, 5)) if rng.random() < 0.2 else \
                base.gen_tree(rng, rng.randint(1, 7), leaf=["SimLeaf", "SimSource", "SimSink"], decos=TIMELESS + ["Throttle"], pdeco=0.35)
            subs = subgen.put(rng, spec, files, rng.choice([1, 1, 2]))
            if not subs:
                s = rng.choice([s for s in T.names(spec) if not s.get("ch")])
                f = files[-1]
                n = s["n"]
                s.clear()
                s.update(subgen.use(f, n))
                subs = [(n, f)]
            flat = [s["n"] for s in T.names(inline(spec, files))]
            if len(set(flat)) == len(flat):
                break
        wir = []
        order = [s["n"] for s in T.names(spec)]
        for s in T.names(spec):
            if s["c"] == "SimSink":
                s["i"] = {"inp": 1}
        for n, f in subs:
            ins, outs = subgen.ports(f)
            src = [s["n"] for s in T.names(spec) if s["c"] in ("SimSource", "SimSink") and order.index(s["n"]) < order.index(n)]
            dst = [s for s in T.names(spec) if s["c"] == "SimSink" and order.index(s["n"]) > order.index(n)]
            for p in ins:
                if src:
                    wir.append([rng.choice(src), "out", n, p])
            for p in outs:
                if dst and rng.random() < 0.7:
                    d = rng.choice(dst)
                    if "inp" in d.get("i", {}):
                        d["i"] = {}
                        d["dyn"] = ["inp"]
                        wir.append([n, p, d["n"], "inp"])
        both = {"c": "x", "n": "x", "ch": [spec] + [f["tree"] for f in files]}
        leaf = base.gen_script(rng, both, p=rng.choice([(0.4, 0.25, 0.35), (0.75, 0.05, 0.2)]), pd=0.25, teardown=0.15)
        for s in T.names(both):
            if s["c"] in ("SimSource", "SimSink") and s["n"] in leaf:
                t = leaf[s["n"]]["tick"]
                for k, e in enumerate(t):
                    if k == 0 or rng.random() < 0.4:
                        t[k] = dict(e) if isinstance(e, dict) else {"r": e}
                        t[k]["out"] = {"out": rng.randint(0, 5)}
        sc = dict(mode="equal", tree=spec, wirings=wir, leaf=leaf, files=files, hz=rng.choice([5.0, 10.0, 20.0]))
        if rng.random() < 0.3 and base.leaves(both):
            sc["node_faults"] = gen_faults(rng, both)
        sc["program"] = prog = []
        for _ in range(rng.randint(3, 9)):
            prog.append({"op": "control", "cmd": rng.choices(["TICK_ONCE", "TICK_UNTIL_RESULT", "STOP", "RESET", "SHUTDOWN", "SETUP_AND_SHUTDOWN"],
                                                             [6, 3, 2, 2, 1, 1])[0]})
        if rng.random() < 0.4:
            prog.append({"op": "control", "cmd": "TICK_PERIODICALLY", "stop": rng.choice([300, 900, 2500]) * MS})
        return sc

    def gen_broken(self, rng):
        files = []
        for j in range(2):
            f = subgen.gen_file(rng, j, files[:j], size=rng.choice([1, 4]), io=False)
            f["path"] = f"/disk/store/ok{j}.yaml"
            for s in T.names(f["tree"]):
                if s["c"] == "SimSink":
                    s["i"], s["dyn"] = {"inp": 1}, []
                if s["c"] == "Subtree":
                    s["i"]["subtree_path"] = "file:///disk/store/ok0.yaml"
                    s["_f"] = "/disk/store/ok0.yaml"
            files.append(f)
        spec = base.gen_tree(rng, rng.randint(1, 5), pdeco=0.1)
        names = [s["n"] for s in T.names(spec)]
        inner = [s["n"] for s in T.names(spec) if s.get("ch") and s["c"] not in base.DECOS + ["SimPair"]]
        leafs = base.leaves(spec)
        kinds = ["ok0", "ok1"] * 3 + sorted(SURELY_BAD - {"self", "mutual"}) + ["cut", "cut", "flip"]
        if rng.random() < 0.15:
            kinds += ["self", "mutual"]
        ops, subs, cnt = [], [], 0
        for _ in range(rng.randint(3, 9)):
            x = rng.random()
            kind = rng.choice(kinds)
            if x < 0.3 and inner:
                cnt += 1
                op = {"op": "add", "c": "Subtree", "n": f"s{cnt}", "parent": rng.choice(inner), "kind": kind}
                subs.append(op["n"])
            elif x < 0.45 and leafs:
                op = {"op": "morph", "c": "Subtree", "n": rng.choice(leafs), "kind": kind}
                subs.append(op["n"])
            elif x < 0.6 and subs:
                op = {"op": "options", "c": "Subtree", "n": rng.choice(subs), "kind": kind}
            elif x < 0.75:
                op = {"op": "load", "tree": {"c": "Sequence", "n": "n1", "ch": [{"c": "SimLeaf", "n": "a"}, {"c": "Subtree", "n": "s"}]}, "kind": kind}
                subs.append("s")
            elif x < 0.85:
                op = rng.choice([{"op": "reload"}, {"op": "get_subtree", "n": rng.choice(names + subs)}, {"op": "reload"}])
            else:
                op = {"op": "control", "cmd": rng.choice(["TICK_ONCE", "SHUTDOWN", "SETUP_AND_SHUTDOWN"])}
            if op["op"] == "control" and op["cmd"] == "TICK_ONCE":
                ops.append(op)
                op = {"op": "control", "cmd": "SHUTDOWN"}
            if rng.random() < 0.2:
                # a stored tree is damaged, or repaired, while the system is running
                ops.append({"op": "damage", "file": rng.choice(["ok0", "ok1"]), "how": rng.choice(["missing", "empty", "garbage", "cut", "repair", "repair"])})
            ops.append(op)
        sc = dict(mode="broken", tree=spec, wirings=[], leaf=base.gen_script(rng, spec, pd=0.0), files=files, ops=ops, hz=10.0, cut=rng.random())
        if rng.random() < 0.3:
            sc["disk"] = [{"kind": rng.choice(["open_r", "read"]), "nth": rng.randint(1, 6), "fault": rng.choice(["EIO", "EACCES", "EMFILE", "ENOENT"])}]
        return sc

    def setup_env(self, w, sc):
        subgen.write_files(w, sc["files"])
        if sc["mode"] != "broken":
            return
        base_ = w.scratch + "/store/"
        good = subgen.yaml_text(sc["files"][0])
        w.good = {f"ok{j}": subgen.yaml_text(f) for j, f in enumerate(sc["files"])}
        os.makedirs(base_ + "dir.yaml", exist_ok=True)

        def put(n, text):
            with open(base_ + n + ".yaml", "w") as h:
                h.write(text)

        def rec(to):
            return subgen.yaml_text({"tree": {"c": "Sequence", "n": "r", "ch": [{"c": "SimLeaf", "n": "q"}, {
                "c": "Subtree", "n": "again", "i": {"subtree_path": f"file:///disk/store/{to}.yaml"}}]}})
        put("empty", "")
        put("garbage", "nodes: [}{ \x07 not a tree")
        put("list", "- 1\n- 2\n")
        put("self", rec("self"))
        put("mutual", rec("mutual2"))
        put("mutual2", rec("mutual"))
        put("class", good.replace("node_class: ", "node_class: No", 1))
        put("dangling", subgen.yaml_text({"tree": {"c": "Sequence", "n": "r", "ch": [{"c": "SimLeaf", "n": "q"}]}}).replace(
            "10000000-0000-0000-0000-000000000002", "77777777-0000-0000-0000-000000000002", 1))
        put("cut", good[:int(len(good) * sc["cut"])])
        k = int(len(good) * sc["cut"])
        put("flip", good[:k] + chr(ord(good[k:k + 1] or "a") ^ 5) + good[k + 1:])

    def prepare(self, w, sc):
        base.Session.prepare(self, w, sc)
        w.phases = None
        w.watched = base.EDITS
        w.damaged = {}

        def hook(w, d, phase):
            if phase == "begin" and d["op"] == "tick" and d["cls"] == "SimSink":
                d["data"] = w.k.atomically(lambda: {k: c.get_value().unwrap_or(None) for k, c in d["obj"].node_config.inputs.items()})
        w.inv.append(hook)

    def run_clients(self, w, sc):
        if sc["mode"] == "broken":
            return self.run_broken(w, sc)
        a0 = len(w.ops)
        r1 = self.program(w, sc)
        a1 = len(w.ops)
        self.rest(w, sc)
        w.settle()
        op = {"op": "load", "tree": inline(sc["tree"], sc["files"]), "wirings": flat_wirings(sc), "hz": sc["hz"]}
        c = w.call(*base.build(w, op), client="p", op=op)
        if c.resp is not None and w.manager().state == "ERROR":
            return                                          # a node failed its shutdown
        if c.resp is None or not c.resp.success:
            w.violation("flat_load", f"the tree without subtrees cannot be loaded: {getattr(c.resp, 'error_message', None)}")
            return
        w.leaf_n.clear()
        b0 = len(w.ops)
        r2 = self.program(w, sc, cut=(r1[1], r1[2]))
        w.phases = [(r1, w.ops[a0:a1]), (r2, w.ops[b0:])]

    def run_broken(self, w, sc):
        for op in sc["ops"]:
            w.k.sleep(5 * MS)
            if op["op"] == "damage":
                p = f"{w.scratch}/store/{op['file']}.yaml"
                text = w.good[op["file"]]
                w.damaged[op["file"]] = op["how"]
                if os.path.exists(p):
                    os.unlink(p)
                if op["how"] != "missing":
                    with open(p, "w") as h:
                        h.write({"empty": "", "garbage": "{]", "cut": text[:len(text) // 2], "repair": text}[op["how"]])
                if op["how"] == "repair":
                    del w.damaged[op["file"]]
                continue
            o = copy.deepcopy(op)
            if "kind" in o:
                path = f"file:///disk/store/{o['kind']}.yaml"
                if o["op"] == "load":
                    o["tree"]["ch"][1]["i"] = {"subtree_path": path}
                else:
                    o["i"] = {"subtree_path": path}
            fired = sum(w.disk.fired.values())
            o["damaged"] = sorted(w.damaged)
            if not self.one(w, sc, "c1", o):
                return
            w.calls[-1].disk_fault = sum(w.disk.fired.values()) > fired
        w.disk.enabled = False
        for n, text in w.good.items():
            with open(f"{w.scratch}/store/{n}.yaml", "w") as h:
                h.write(text)
        for cmd in ("STOP", "SHUTDOWN"):
            w.call("control_tree_execution", T.control(w, cmd), client="c1", op={"op": "control", "cmd": cmd})
        o = {"op": "load", "tree": {"c": "Sequence", "n": "z1", "ch": [{"c": "Subtree", "n": "z2", "i": {"subtree_path": "file:///disk/store/ok1.yaml"}}]}}
        w.last_load = w.call(*base.build(w, o), client="c1", op=o)
        w.last_tick = w.call("control_tree_execution", T.control(w, "TICK_ONCE"), client="c1", op={"op": "control", "cmd": "TICK_ONCE"})

    def finish(self, w, sc):
        w.settle()
        w.final = []
        self.recover(w, sc)

    def check(self, w, sc):
        if self.died(w):
            return
        for c in w.calls:
            if c.resp is None and not c.lost:
                return w.violation("unanswered", f"{c.srv} was never answered")
        self.inside(w)
        if w.violations:
            return
        if sc["mode"] == "broken":
            self.check_broken(w)
        elif w.phases:
            self.compare(w)

    def inside(self, w):
        """A subtree node passes operations on to its root, and their results back."""
        kids = {}
        for d in w.ops:
            if d["parent"] is not None:
                kids.setdefault(d["parent"], []).append(d)
        for d in w.ops:
            if d["cls"] != "Subtree" or d["t1"] is None:
                continue
            ch = kids.get(d["i"], [])
            root = getattr(d["obj"], "root", None)
            if len(ch) > 1 or any(c["op"] != d["op"] for c in ch):
                return w.violation("passed_on", f"{d['op']} of subtree {d['node']} executed {[(c['node'], c['op']) for c in ch]} inside")
            if ch and ch[0]["t1"] is not None and (d["res"] != ch[0]["res"] or (
                    d["post"] != ch[0]["post"] and not d["res"].startswith(("ERR", "EXC")))):
                return w.violation("result", f"{d['op']} of subtree {d['node']} gave {d['res']} / {d['post']}, that of its root {ch[0]['res']} / {ch[0]['post']}")
            if not ch and root is not None and not d["res"].startswith("ERR") and d["pre"] not in ("SHUTDOWN", "UNINITIALIZED") and \
                    str(root.state) not in ("UNINITIALIZED", "SHUTDOWN"):
                return w.violation("not_passed_on", f"{d['op']} of subtree {d['node']} = {d['res']} did not reach its root")

    def compare(self, w):
        (r1, ops1), (r2, ops2) = w.phases
        kids = {d["parent"] for d in ops1}
        for d in ops1:
            if d["cls"] == "Subtree" and d["op"] == "tick" and d["res"] and d["res"].startswith("ERR") and d["i"] not in kids:
                w.k.count("unset_inputs", 1)
                return
        for a, b in zip(r1[0], r2[0]):
            k = 2 if a[0] in ("TICK_UNTIL_RESULT", "TICK_PERIODICALLY") else 3
            if a[:k] != b[:k]:
                return w.violation("answer_differs", f"{a[0]} was answered {a[1:]} for the tree with subtrees, {b[1:]} for the same tree without")
        l1 = [self.op(o, ops1) for o in ops1 if o["cls"] != "Subtree" and self.matters(o)]
        l2 = [self.op(o, ops2) for o in ops2 if self.matters(o)]
        prefix = r1[2] or r2[2]
        if prefix and r1[1] != r2[1]:
            return w.violation("progress_differs", f"the program got to step {r1[1]} with subtrees, to step {r2[1]} without")
        n = min(len(l1), len(l2)) if prefix else max(len(l1), len(l2))
        inner = {d["node"] for d in ops1 if d["node"].startswith("f")}
        for i in range(n):
            a = l1[i] if i < len(l1) else None
            b = l2[i] if i < len(l2) else None
            if a != b:
                if prefix and i >= n - 60 and (a is None or b is None or "?" in (a[3], b[3])):
                    break
                return w.violation("execution_differs", f"operation {i} was {self.show(a)} with subtrees, {self.show(b)} without")
            if a[0] in inner:
                w.k.count("inner_ops", 1)

    @staticmethod
    def matters(o):
        """Operations on nodes that are not set up, or broken, are without effect."""
        if o["op"] == "setup":
            return o["pre"] in ("UNINITIALIZED", "SHUTDOWN")
        return o["pre"] not in ("UNINITIALIZED", "SHUTDOWN") and (o["op"] == "shutdown" or o["pre"] != "BROKEN")

    @staticmethod
    def op(o, ops):
        return (o["node"], o["op"], None, o["res"] if o["t1"] is not None else "?", o["post"] if o["t1"] is not None else "?",
                o.get("data"))

    def check_broken(self, w):
        for c in w.calls:
            kind = c.op.get("kind") if c.op else None
            if c.srv not in base.EDITS or c.resp is None:
                continue
            if not c.resp.success:
                if kind:
                    w.k.count("bad_answers" if kind not in GOOD else "good_refused", 1)
                if not c.resp.error_message:
                    return w.violation("no_reason", f"{c.srv} with a {kind} subtree file failed without an explanation")
                if c.before is not None and c.after is not None and c.alone:
                    d = editmodel.diff(editmodel.comparable(c.before), editmodel.comparable(c.after))
                    if d:
                        return w.violation("not_atomic", f"{c.srv} with a {kind} subtree file failed and changed the tree: {d}")
            elif kind in SURELY_BAD:
                return w.violation("accepted", f"{c.srv} with a {kind} subtree file reported success")
            elif c.before is None:
                pass
            if kind in GOOD and not c.resp.success and not c.op.get("damaged") and not getattr(c, "disk_fault", False) and c.op["op"] == "load":
                return w.violation("refused", f"{c.srv} with an intact subtree file failed: {c.resp.error_message[:200]}")
        ll = getattr(w, "last_load", None)
        if ll is not None and not ll.resp.success:
            return w.violation("no_recovery", f"loading a tree with an intact subtree file failed afterwards: {ll.resp.error_message[:200]}")
        if ll is not None and not w.last_tick.resp.success:
            return w.violation("no_recovery", f"a tree with an intact subtree cannot be ticked: {w.last_tick.resp.error_message[:200]}")


_ = (SEC,)
PROP = C19()
