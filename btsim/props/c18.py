"""C18 Wired data is delivered, in order, with its update notification."""
import copy
import json

from .. import base, editgen, subgen
from .. import tree as T
from .c02 import gen_faults
from .c29 import managers

KEYS = ["num", "text", "items", "map", "flag"]
BAD = {"UNINITIALIZED", "SHUTDOWN", "BROKEN"}


def value(rng, k):
    if k in ("num", "out"):
        return rng.choice([0, 0, 1, 1, 2, 7, -3])
    if k == "text":
        return rng.choice(["", "a", "b", "ä\n"])
    if k == "items":
        return rng.choice([[], [1], [1, 2], ["push", rng.randint(0, 2)], ["push", 5]])
    if k == "map":
        return rng.choice([{}, {"a": 1}, {"a": 2, "b": 0}, {"+": {"k": rng.randint(0, 2)}}, {"+": {"z": 1}}])
    return rng.random() < 0.5


class C18(base.Session):
    id = "C18"
    quick_total = 260
    nvariants = 2
    rule = "a run counts when at least one wired input was compared with the reference model at a tick of its node"
    shrink_lists = base.Session.shrink_lists + ["wirings"]

    def nontrivial(self, r):
        return r["extra"].get("inputs_checked", 0) > 0

    def gen(self, rng, i):
        files = []
        if rng.random() < 0.4:
            for j in range(rng.choice([1, 1, 2])):
                f = subgen.gen_file(rng, j, files, pio=0.95)
                files.append(f)
        spec = base.gen_tree(rng, rng.randint(5, 14), width=(2, 3, 3, 4, 5), root=rng.choice(["Sequence", "Sequence", "Sequence", None]), comps=rng.choice([["Sequence", "SimPair"], ["Sequence", "SimPair", "SimPair", "Parallel", "MemorySequence", "Fallback"]]),
                             pdeco=0.2, leaf=["SimData", "SimData", "SimData", "SimSource", "SimSink", "SimLeaf"])
        subs = subgen.put(rng, spec, files, rng.choice([1, 2])) if files else []
        if files and not subs:
            c = [s for s in T.names(spec) if not s.get("ch")]
            s = rng.choice(c)
            f = rng.choice(files)
            s.clear()
            s.update(subgen.use(f, "sub"))
            subs = [("sub", f)]
        wir = []
        order = [s for s in T.names(spec)]
        pos = {s["n"]: j for j, s in enumerate(order)}
        outs = {k: [] for k in KEYS}
        for s in order:
            if s["c"] == "SimData":
                for k in KEYS:
                    outs[k].append((s["n"], "o_" + k))
            if s["c"] in ("SimSource", "SimSink"):
                outs["num"].append((s["n"], "out"))
        for n, f in subs:
            for p in subgen.ports(f)[1]:
                outs["num"].append((n, p))

        def src(k, name):
            c = [x for x in outs[k] if x[0] != name]
            if rng.random() < 0.93:
                c = [x for x in c if pos[x[0]] < pos[name]]
            return rng.choice(c) if c else None
        for s in order:
            if s["c"] == "SimData":
                for k in KEYS:
                    x = src(k, s["n"]) if rng.random() < 0.45 else None
                    if x:
                        s.setdefault("dyn", []).append(k)
                        wir.append([x[0], x[1], s["n"], k])
            elif s["c"] == "SimSink":
                x = src("num", s["n"])
                if x and rng.random() < 0.9:
                    s.setdefault("dyn", []).append("inp")
                    wir.append([x[0], x[1], s["n"], "inp"])
                else:
                    s["i"] = {"inp": 3}
        for n, f in subs:
            for p in subgen.ports(f)[0]:
                x = src("num", n)
                if x:
                    wir.append([x[0], x[1], n, p])
        both = {"c": "x", "n": "x", "ch": [spec] + [f["tree"] for f in files]}
        leaf = base.gen_script(rng, both, p=rng.choice([(0.9, 0.05, 0.05), (0.9, 0.05, 0.05), (0.6, 0.15, 0.25)]), pd=0.1, teardown=0.05)
        for s in T.names(both):
            ks = ["o_" + k for k in KEYS] if s["c"] == "SimData" else ["out"] if s["c"] in ("SimSource", "SimSink") else []
            if not ks or s["n"] not in leaf:
                continue
            t = leaf[s["n"]]["tick"]
            for j, e in enumerate(t):
                o = {}
                for k in ks:
                    if rng.random() < (0.99 if j == 0 else 0.45):
                        o[k] = value(rng, k[2:] if k != "out" else k)
                        if s["c"] == "SimData" and k[2:] in s.get("dyn", []) and rng.random() < 0.4:
                            o[k] = "copy"
                if o:
                    t[j] = dict(e) if isinstance(e, dict) else {"r": e}
                    t[j]["out"] = o
        sc = dict(tree=spec, wirings=wir, leaf=leaf, files=files, hz=rng.choice([10.0, 20.0, 50.0]), clients=[])
        if rng.random() < 0.12 and base.leaves(both):
            sc["node_faults"] = gen_faults(rng, both)
        ops = []
        for _ in range(rng.randint(3, 10)):
            x = rng.random()
            if x < 0.68:
                op = base.gen_control(rng, [7, 6, 5, 2, 3, 2, 1, 0])
                if op["cmd"] in ("TICK_PERIODICALLY", "TICK_UNTIL_RESULT"):
                    ops.append(op)
                    op["wait"] = 0
                    op = {"op": "control", "cmd": "STOP", "wait": rng.choice([250, 600, 1500]) * 1_000_000}
                    ops.append(op)
                    continue
            elif x < 0.9 and wir:
                # edits of the wiring happen on an editable tree
                ops.append({"op": "control", "cmd": "SHUTDOWN", "wait": 0})
                w_ = rng.choice(wir)
                if rng.random() < 0.6:
                    ops.append({"op": "unwire", "w": [w_], "wait": 0})
                    if rng.random() < 0.8:
                        k = w_[3] if w_[3] in KEYS else "num"
                        if rng.random() < 0.5:
                            x = src(k, w_[2])
                            ops.append({"op": "wire", "w": [[x[0], x[1], w_[2], w_[3]] if x else w_], "wait": 0})
                        else:
                            ops.append({"op": "wire", "w": [w_], "wait": 0})
                    continue
                op = rng.choice([{"op": "reload"}, {"op": "move", "n": rng.choice(order)["n"], "parent": rng.choice(order)["n"], "idx": rng.choice([0, -1])},
                                 {"op": "options", "c": rng.choice(order)["c"], "n": rng.choice(order)["n"], "new": "renamed"}])
            else:
                op = {"op": rng.choice(["pubdata", "diag", "pubsub"]), "v": rng.random() < 0.5}
            op["wait"] = base.wait_choice(rng)
            ops.append(op)
        sc["clients"].append({"name": "c1", "ops": ops})
        if rng.random() < 0.3:
            sc["clients"].append({"name": "c2", "ops": [dict(rng.choice([{"op": "pubdata", "v": True}, {"op": "get_subtree", "n": order[0]["n"]}]),
                                                             wait=base.wait_choice(rng)) for _ in range(rng.randint(1, 5))]})
        return sc

    def setup_env(self, w, sc):
        subgen.write_files(w, sc.get("files", []))

    # ------------------------------------------------------------------------------------------------ model ----
    def prepare(self, w, sc):
        super().prepare(w, sc)
        M = Flow(w)
        w.on_output = M.on_output
        w.inv.append(lambda w, d, phase: w.k.atomically(lambda: M.hook(d, phase)))

    def check(self, w, sc):
        if self.died(w):
            return
        # passing data on never fails by itself
        bad = [d for d in w.ops if d["res"] and d["res"].startswith(("ERR", "EXC"))]
        for seq, t, m in w.msgs("~/tree_state_list"):
            for x in m.tree_states:
                if x.state == "ERROR" and not any(d["s0"] <= seq for d in bad):
                    return w.violation("error", "the tree went into state ERROR although no node failed")


def get(c):
    return c.get_value().unwrap_or(None)


class Flow:
    """Reference model of the data flow: what every input of every node must hold, fed with what nodes write."""

    def __init__(self, w):
        self.w = w
        self.val = {}      # (obj, key) -> value an input must hold
        self.flag = {}     # (obj, key) -> must be flagged as updated
        self.out = {}      # (obj, key) -> value of an output
        self.keep = []

    def on_output(self, node, op, key, v):
        if op == "tick":
            node.__dict__.setdefault("_set", {})[key] = copy.deepcopy(v)

    def owner(self, obj):
        m = self.w.manager()
        for x in managers(m) if m is not None else []:
            if obj in x.nodes.values():
                return x
        return None

    @staticmethod
    def above(a, b):
        """a is an ancestor of b (within one tree)"""
        while b is not None:
            b = b.parent
            if b is a:
                return True
        return False

    def hook(self, d, phase):
        w, n = self.w, d["obj"]
        if w.violations:
            return
        ins, outs = n.node_config.inputs, n.node_config.outputs
        if phase == "begin":
            if d["op"] == "setup" and d["pre"] in ("UNINITIALIZED", "SHUTDOWN"):
                self.keep.append(n)
                for k, c in ins.items():
                    # the value of a static input never changes; a dynamic one is empty after the setup
                    self.val[id(n), k] = get(c) if c.is_static else None
                    self.flag[id(n), k] = True
                for k in outs:
                    self.out[id(n), k] = None
                n.__dict__["_set"] = {}
            elif d["op"] == "reset" and d["pre"] not in BAD:
                for k in ins:
                    self.flag[id(n), k] = True
                for k in outs:
                    self.out[id(n), k] = None
                n.__dict__["_set"] = {}
            elif d["op"] == "tick" and d["pre"] not in BAD:
                self.at_tick(n, ins)
                d["_unset"] = any(self.val.get((id(n), k)) is None for k in ins)
                if type(n).__name__ == "Subtree" and not d["_unset"] and n.root is not None:
                    inner = {str(x.node_id): x for x in n.manager.nodes.values()}
                    for k in ins:
                        nid, _, key = k.partition(".")
                        if nid in inner and self.flag.get((id(n), k)):
                            self.give(inner[nid], key, self.val[id(n), k], None)
            return
        if d["op"] == "tick" and d["pre"] not in BAD and d["res"] and not d["res"].startswith(("ERR", "EXC")):
            for k in ins:
                self.flag[id(n), k] = False
            for k, v in n.__dict__.get("_set", {}).items():
                if get(outs[k]) != v:
                    return w.violation("output", f"{n.name}.{k} was set to {v!r} but holds {get(outs[k])!r} after the tick")
            m = self.owner(n)
            if m is None:
                return
            new = {k: get(c) for k, c in outs.items()}
            nodes = {str(x.node_id): x for x in m.nodes.values()}
            for x in m.wirings:
                if x.source.node_id == str(n.node_id) and x.source.data_key in new:
                    v = new[x.source.data_key]
                    t = nodes.get(x.target.node_id)
                    if t is not None and v is not None and v != self.out.get((id(n), x.source.data_key)):
                        self.give(t, x.target.data_key, v, n)
            for k, v in new.items():
                self.out[id(n), k] = v
        elif d["op"] == "tick" and d["pre"] not in BAD and d.get("_unset") and d["res"] and not d["res"].startswith("ERR"):
            w.violation("unset", f"{n.name} was executed although one of its inputs has no value")

    def give(self, t, key, v, src):
        if self.val.get((id(t), key)) != v:
            self.val[id(t), key] = copy.deepcopy(v)
            self.flag[id(t), key] = "?" if src is not None and self.above(t, src) else True

    def at_tick(self, n, ins):
        w = self.w
        m = self.owner(n)
        wired = {x.target.data_key for x in m.wirings if x.target.node_id == str(n.node_id)} if m is not None else set()
        for k, c in ins.items():
            if (id(n), k) not in self.val:
                continue
            want, got = self.val[id(n), k], get(c)
            what = "wired" if k in wired else "static" if c.is_static else "unwired"
            if want != got:
                return w.violation("value", f"the {what} input {k} of {n.name} holds {show(got)} at its tick, but must hold {show(want)}")
            f = self.flag[id(n), k]
            if f != "?" and bool(c.is_updated()) != f:
                return w.violation("flag", f"the {what} input {k} of {n.name} is {'' if c.is_updated() else 'not '}flagged as updated at its tick "
                                   f"(value {show(got)})")
            w.k.count("inputs_checked" if k in wired else "other_inputs", 1)


def show(v):
    return json.dumps(v, default=str)[:60]


_ = editgen
PROP = C18()
