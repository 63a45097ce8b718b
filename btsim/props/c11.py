"""C11 Saving and loading or reloading a tree preserves it."""
import copy

from .. import base, editgen, editmodel, libgen, subgen
from .. import tree as T
from ..base import MS
from .c09 import full


class C11(base.Session):
    id = "C11"
    quick_total = 200
    nvariants = 1
    rule = "a run counts when a saved and loaded (or reloaded) tree of at least two nodes was compared with the original"
    shrink_lists = ["edits", "plan", "disk", "wirings", "files"]

    def nontrivial(self, r):
        return r["extra"].get("compared", 0) > 0

    def gen(self, rng, i):
        files = []
        if rng.random() < 0.2:
            files = [subgen.gen_file(rng, 0)]
        spec = editgen.gen_spec(rng, rng.randint(1, 9))
        spec = libgen.put(rng, spec, rng.choice([0, 0.4, 0.9]))
        if files:
            subgen.put(rng, spec, files, 1)
        if rng.random() < 0.3:
            for s in T.names(spec):
                if rng.random() < 0.5:
                    s["name"] = rng.choice(libgen.NAMES)
        wir = editgen.gen_wirings(rng, spec, rng.randint(0, 4))
        g = editgen.Gen(rng, spec)
        g.wirings = list(wir)
        edits = []
        for _ in range(rng.choice([0, 1, 4, 10])):
            op = g.op({"reload": 0.5, "load": 0.3})
            op.pop("garbage", None)
            op.pop("mut", None)
            if op["op"].startswith("add") and op["c"] == "SimLeaf" and rng.random() < 0.6:
                op.update(libgen.node(rng, op["n"]))
            if op["op"] in ("options", "morph") and "new" in op and rng.random() < 0.4:
                op["new"] = rng.choice(libgen.NAMES)
            if op["op"] == "name":
                op["name"] = rng.choice(libgen.TEXT)
            edits.append(op)
        both = {"c": "x", "n": "x", "ch": [spec] + [f["tree"] for f in files]}
        leaf = base.gen_script(rng, both, pd=0.15, teardown=0)
        for s in T.names(both):
            if s["c"] in ("SimSource", "SimSink"):
                for k, e in enumerate(leaf[s["n"]]["tick"]):
                    if rng.random() < 0.6:
                        leaf[s["n"]]["tick"][k] = dict(e if isinstance(e, dict) else {"r": e}, out={"out": rng.randint(0, 5)})
        sc = dict(tree=spec, wirings=wir, edits=edits, leaf=leaf, files=files, hz=rng.choice([10.0, 0.1, 33.3, 1e-3, 12.000000001, 250.5]),
                  mode=rng.choice(["load", "load", "restart", "restart", "reload"]), name=rng.choice(["t.yaml", "t", "ä ö.yaml", "sub/dir/t.yaml", "t'\".yaml", "a b.yml"]),
                  over=rng.random() < 0.5, rename=rng.random() < 0.3, again=rng.choice([0, 0, 1, 2]), first=rng.random() < 0.3,
                  program=[rng.choice(["TICK_ONCE"] * 8 + ["RESET", "STOP"]) for _ in range(rng.choice([0, 3, 8]))])
        if rng.random() < 0.3:
            sc["disk"] = [{"kind": "write", "nth": rng.choice([1, 2]), "fault": rng.choice(["short", "stall"]), "frac": 0.4, "ns": 20 * MS}]
        return sc

    def prepare(self, w, sc):
        super().prepare(w, sc)
        w.watched = {"save_tree"}

    def params(self, sc):
        from .. import ros
        return {"tree_storage_paths": [ros.W.scratch + "/store"]}

    def setup_env(self, w, sc):
        subgen.write_files(w, sc["files"])

    def start(self, w, sc):
        w.unanswered = []
        self.setup_env(w, sc)
        w.start_process(self.params(sc))
        w.wait_up()
        if sc.get("tree"):
            r = T.load_req(w, sc["tree"], wirings=sc["wirings"], rate=sc["hz"])
            rename = {w.refs[s["n"]]: s["name"] for s in T.names(sc["tree"]) if "name" in s}
            for n in r.tree.nodes:
                n.name = rename.get(n.node_id, n.name)
            c = w.call("load_tree", r, op={"op": "load0"})
            w.k.count("loaded0" if c.resp is not None and c.resp.success else "not_loaded0", 1)
            if c.resp is not None and not c.resp.success:
                w.k.rec("load0", c.resp.error_message[:300])

    def drive(self, w, sc):
        self.start(w, sc)
        w.twins = []
        w.runs = []
        for op in sc["edits"]:
            if not self.one(w, sc, "c", op):
                return
        w.settle()
        if sc["first"]:                                 # executed before it is saved
            if not self.execute(w, sc):
                return
        a = self.look(w)
        if a is None:
            return
        for k in range(1 + sc["again"]):
            if not self.round(w, sc, k, a):
                return
        self.execute(w, sc)

    def look(self, w):
        w.settle()
        m = w.last("~/tree_structure_list")
        t = [t for t in m.tree_structures if t.tree_id == base.NIL]
        return (editmodel.snapshot(w.manager()), copy.deepcopy(t[0])) if t else None

    def round(self, w, sc, k, a):
        mode = sc["mode"]
        if mode == "reload" and not a[1].nodes:             # (there is nothing to reload)
            return True
        what = "reload"
        if mode != "reload":
            name = sc["name"] if not k else f"r{k}.yaml"
            op = {"op": "save", "file": name, "over": sc["over"], "rename": sc["rename"]}
            if not self.one(w, sc, "c", op):
                return False
            c = w.calls[-1]
            if not c.resp.success:
                w.violation("not_saved", f"saving the published tree as {name} failed: {w.norm(c.resp.error_message)}")
                return False
            w.twins.append(("saving it", a, self.look(w), True))
            path = c.resp.file_path
            if mode == "restart":
                w.crash()
                w.start_process(self.params(sc))
                if not w.wait_up():
                    w.violation("not_up", f"the process did not come up again: {w.proc_exits[-1:]}")
                    return False
            op = {"op": "load_path", "path": "file://" + path.replace(w.scratch, "/disk")}
            what = f"save, {mode} and load" if mode == "restart" else "save and load"
        else:
            op = {"op": "reload"}
        if not self.one(w, sc, "c", op):
            return False
        c = w.calls[-1]
        if not c.resp.success:
            w.violation("not_loadable", f"{what} failed: {w.norm(c.resp.error_message)}")
            return False
        w.twins.append((what, a, self.look(w), mode == "reload"))
        return True

    def execute(self, w, sc):
        """Run the program on the present tree; the scripts of the leaves start again."""
        w.leaf_n.clear()
        a, answers = len(w.ops), []
        for cmd in sc["program"]:
            if not self.one(w, sc, "c", {"op": "control", "cmd": cmd}):
                return False
            answers.append((cmd, w.calls[-1].resp.success, w.calls[-1].resp.tree_state))
            w.k.sleep(100 * MS)
        if sc["program"] and not self.one(w, sc, "c", {"op": "control", "cmd": "SHUTDOWN"}):
            return False
        w.settle()
        w.runs.append((answers, w.ops[a:]))
        return True

    def check(self, w, sc):
        if self.died(w) or w.violations:
            return
        for c in w.unanswered:
            return w.violation("no_answer", f"{c.srv} {c.op} was not answered")
        for what, (s0, p0), b, memory in w.twins:
            if b is None:
                return w.violation("not_published", f"after {what} no structure was published")
            s1, p1 = b
            if len(s0["nodes"]) > 1:
                w.k.count("compared", 1)
            d = editmodel.diff(full(s0) if what == "saving it" else plain(s0), full(s1) if what == "saving it" else plain(s1))
            rate = s0["rate"] if memory else p0.tick_frequency_hz
            if d is None and s1["rate"] != rate:
                d = f"tick rate {rate} became {s1['rate']}"
            if d is None:
                d = messages(p0, p1)
            if d:
                return w.violation("saving_altered" if what == "saving it" else "not_preserved", f"{what} changed the tree (before vs after): {d}")
        for c in w.calls:
            if c.srv == "save_tree" and c.alone and c.before is not None and full(c.before) != full(c.after):
                return w.violation("saving_altered", f"saving changed the tree: {editmodel.diff(full(c.before), full(c.after))}")
        if len(w.runs) == 2 and not (sc.get("plan") and timed(sc)):
            (a0, o0), (a1, o1) = w.runs
            if a0 != a1:
                x = next((p for p in zip(a0, a1) if p[0] != p[1]), None)
                return w.violation("executes_differently", f"the program was answered differently (before vs after): {x}")
            o0, o1 = trace(o0), trace(o1)
            for x, y in zip(o0 + [None] * len(o1), o1 + [None] * len(o0)):
                if x != y:
                    return w.violation("executes_differently", f"the tree executes differently after {w.twins[-1][0]} (before vs after): {x} vs {y}")
            w.k.count("executions_compared", 1)


TIMED = {"Throttle", "ThrottleSuccess", "Wait", "Service", "TopicMemorySubscriber", "TopicSubscriber"}


def timed(sc):
    """Do results depend on the time between requests (which pre-emptions change)?"""
    trees = [sc["tree"]] + [op["tree"] for op in sc["edits"] if op.get("tree")]
    return bool(({s["c"] for t in trees for s in T.names(t)} | {op.get("c") for op in sc["edits"]}) & TIMED)


def plain(v):
    x = full(v)
    for i, n in v["nodes"].items():
        x["nodes"][i]["outs"] = n["outs"]
        x["nodes"][i]["max"] = n["max"]
    return x


def trace(ops):
    def vals(x):
        return {k: str(v) for k, v in (x or {}).items()}
    return [(d["node"], d["op"], d["depth"], str(d.get("res")), str(d["post"]), vals(d.get("in")), vals(d.get("out"))) for d in ops]


def messages(a, b):
    """First difference between two published structures of the same tree."""
    kids = {c for n in a.nodes for c in n.child_ids}
    rooted = sum(n.node_id not in kids for n in a.nodes) == 1          # (otherwise there is no root to name)
    for k in ("name", "tick_frequency_hz") + ("root_id",) * rooted:
        if getattr(a, k) != getattr(b, k):
            return f"published {k} {getattr(a, k)!r} vs {getattr(b, k)!r}"
    na, nb = {n.node_id: n for n in a.nodes}, {n.node_id: n for n in b.nodes}
    if sorted(na) != sorted(nb):
        return f"published nodes {sorted(na)} vs {sorted(nb)}"
    for i in na:
        x, y = na[i], nb[i]
        for f in ("module", "node_class", "name", "child_ids", "max_children", "tree_ref"):
            u, v = getattr(x, f), getattr(y, f)
            if f != "tree_ref" and u != v:
                return f"published {f} of {x.name}: {u!r} vs {v!r}"
        for f in ("inputs", "outputs"):
            u, v = {q.key: q for q in getattr(x, f)}, {q.key: q for q in getattr(y, f)}
            if list(u) != list(v):
                return f"published {f} of {x.name}: {list(u)} vs {list(v)}"
            for q in u:
                if u[q] != v[q]:
                    return f"published {f}.{q} of {x.name}: {u[q]} vs {v[q]}"
    wa, wb = [editmodel.wkey(x) for x in a.data_wirings], [editmodel.wkey(x) for x in b.data_wirings]
    return None if sorted(wa) == sorted(wb) else f"published wirings {wa} vs {wb}"


PROP = C11()
