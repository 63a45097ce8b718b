"""Generation of editing requests."""
import copy

from . import base
from . import tree as T

CLASSES = ["Sequence", "Fallback", "SimPair", "Inverter", "SimLeaf", "SimSource", "SimSink", "SimPicky", "Parallel"]
INNER = {"Sequence", "Fallback", "SimPair", "Inverter", "Parallel", "MemorySequence", "MemoryFallback"}
OPTS = {"SimSource": ["opt", "label"], "SimSink": ["inp", "text"], "SimPicky": ["opt"], "Parallel": ["needed_successes"]}


def gen_opts(rng, cls, wild=0.2):
    if cls == "SimPicky":
        return {"opt": rng.choice([0, 1, 2, 3, 5] + ([-1, 101] if rng.random() < wild * 2 else []))}
    if cls == "SimSource":
        o = {}
        if rng.random() < 0.7:
            o["opt"] = rng.randint(0, 9)
        if rng.random() < 0.4:
            o["label"] = rng.choice(["x", "yy", "ümläut", ""])
        return o
    if cls == "SimSink":
        return {"inp": rng.randint(0, 5)} if rng.random() < 0.3 else {}
    if cls == "Parallel":
        return {"needed_successes": rng.randint(1, 3)}
    return {}


def dyn(s):
    """Sinks are wirable unless they are given a value."""
    if s["c"] == "SimSink" and "inp" not in s["i"]:
        s["dyn"] = ["inp"]
    return s


def gen_spec(rng, size=6):
    """A tree with sources, sinks and options."""
    cnt = [0]

    def mk(b, d):
        cnt[0] += 1
        name = f"n{cnt[0]}"
        if b <= 1 or d <= 0:
            c = rng.choice(["SimLeaf", "SimSource", "SimSource", "SimSink", "SimSink", "SimPicky"])
            return dyn({"c": c, "n": name, "i": gen_opts(rng, c, 0)})
        c = rng.choice(["Sequence", "Fallback", "SimPair", "Sequence", "Inverter"])
        k = 1 if c == "Inverter" else rng.choice([1, 2]) if c == "SimPair" else rng.choice([1, 2, 3])
        k = min(k, b - 1)
        left, ch = b - 1, []
        for j in range(k):
            x = left if j == k - 1 else rng.randint(1, max(1, left - (k - 1 - j)))
            left -= x
            ch.append(mk(max(1, x), d - 1))
        return {"c": c, "n": name, "ch": ch}
    return mk(size, 4)


def gen_wirings(rng, spec, n=3):
    src = [s["n"] for s in T.names(spec) if s["c"] in ("SimSource", "SimSink", "SimPicky")]
    dst = [s["n"] for s in T.names(spec) if s["c"] == "SimSink" and "inp" not in s.get("i", {})]
    out = []
    for _ in range(n):
        if src and dst:
            w = [rng.choice(src), "out", rng.choice(dst), "inp"]
            if w not in out and w[0] != w[2]:
                out.append(w)
    return out


class Gen:
    """Keeps a rough idea of the tree while generating (failed edits are not tracked)."""

    def __init__(self, rng, spec):
        self.rng = rng
        self.cls = {s["n"]: s["c"] for s in T.names(spec)} if spec else {}
        self.names = list(self.cls)
        self.n = 0
        self.wirings = []

    def any(self, pred=None):
        r = self.rng
        if r.random() < 0.03:
            return r.choice(["ghost", "11111111-2222-3333-4444-555555555555"])
        c = [n for n in self.names if pred is None or pred(self.cls[n])]
        if not c or r.random() < 0.1:
            c = self.names or ["ghost"]
        return r.choice(c)

    def inner(self):
        return self.any(lambda c: c in INNER)

    def op(self, weights=None):
        r = self.rng
        kinds = dict(add=5, remove=4, move=6, morph=4, options=5, replace=4, wire=5, unwire=2, name=1, reload=1, clear=0.3,
                     load=0.7)
        if weights:
            kinds.update(weights)
        if not self.names:
            kinds["add"] = 20
        k = r.choices(list(kinds), list(kinds.values()))[0]
        idx = r.choice([-1, 0, 0, 1, 1, 2, 3, -2, 7])
        if k == "add":
            self.n += 1
            c = r.choice(CLASSES)
            o = {"op": r.choice(["add", "add_at"]), "c": c, "n": f"x{self.n}", "i": gen_opts(r, c), "idx": idx}
            dyn(o)
            if r.random() < 0.9 and self.names:
                o["parent"] = self.inner()
            if c in INNER and r.random() < 0.25 and self.names:
                o["ch"] = [self.any() for _ in range(r.choice([1, 1, 2]))]
            if r.random() < 0.03:
                o["badclass"] = r.choice(["NoSuchNode", "module"])
            self.names.append(o["n"])
            self.cls[o["n"]] = c
            return o
        if k == "remove":
            n = self.any()
            if r.random() < 0.9 and n in self.names and len(self.names) > 2:
                self.names.remove(n)
            return {"op": "remove", "n": n, "rc": r.random() < 0.5}
        if k == "move":
            o = {"op": "move", "n": self.any(), "idx": idx}
            if r.random() < 0.88:
                o["parent"] = self.inner()
            return o
        if k == "morph":
            n = self.any()
            c = r.choice(CLASSES)
            if self.cls.get(n) in INNER and r.random() < 0.7:
                c = r.choice(sorted(INNER))
            o = {"op": "morph", "n": n, "c": c, "new": r.choice([n, "morphed"]), "i": gen_opts(r, c)}
            dyn(o)
            if r.random() < 0.03:
                o["badclass"] = "NoSuchNode"
            self.cls[n] = c
            return o
        if k == "options":
            n = self.any(lambda c: c in OPTS) if r.random() < 0.8 else self.any()
            c = self.cls.get(n, "SimSource")
            o = {"op": "options", "n": n, "c": c, "i": gen_opts(r, c)}
            if c == "SimSink" and r.random() < 0.4:
                o["dyn"] = ["inp"]
                o["i"] = {}
            if r.random() < 0.4:
                o["new"] = r.choice(["renamed", n + "b", ""])
            if r.random() < 0.05 and o["i"]:
                o["garbage"] = r.choice(["{", "\"text\"", "null", ""])
            return o
        if k == "replace":
            return {"op": "replace", "n": self.any(), "by": self.any()}
        if k in ("wire", "unwire"):
            ws = []
            for _ in range(r.choice([1, 1, 2, 3])):
                if k == "unwire" and self.wirings and r.random() < 0.8:
                    ws.append(r.choice(self.wirings))
                    continue
                w = [self.any(lambda c: c in ("SimSource", "SimSink", "SimPicky")), "out", self.any(lambda c: c == "SimSink"), "inp"]
                if r.random() < 0.15:
                    w[r.choice([1, 3])] = r.choice(["out", "inp", "text", "flag", "nope", "opt"])
                ws.append(w)
                self.wirings.append(w)
            if r.random() < 0.1 and ws:
                ws.append(ws[0])
            return {"op": k, "w": ws, "ign": r.random() < 0.2}
        if k == "name":
            return {"op": "name", "name": r.choice(["t1", "t2", "", "ä b"])}
        if k == "load":
            spec = gen_spec(r, r.randint(1, 5))
            o = {"op": "load", "tree": spec, "wirings": gen_wirings(r, spec, 2), "name": r.choice(["L1", "L2"])}
            self.names = [s["n"] for s in T.names(spec)]
            self.cls = {s["n"]: s["c"] for s in T.names(spec)}
            if r.random() < 0.4:
                o["mut"] = [gen_mut(r) for _ in range(r.choice([1, 1, 2]))]
            return o
        if k == "clear":
            self.names, self.cls = [], {}
        return {"op": k}


MUTS = ["dup_id", "dangling", "two_parents", "self_child", "cycle", "dup_child", "dup_wiring", "wiring_ghost", "wiring_port",
        "wiring_type", "bad_class", "bad_module", "bad_id", "empty_id", "bad_value", "wrong_root", "two_roots", "no_name", "rate",
        "bad_child_id", "bad_wiring_id", "bad_type", "unset_option"]


def gen_mut(r):
    return [r.choice(MUTS), r.randint(0, 5), r.randint(0, 5)]


BAD_MUTS = {"dup_id", "dangling", "two_parents", "self_child", "cycle", "dup_child", "wiring_ghost", "wiring_port", "wiring_type",
            "bad_class", "bad_module", "bad_id", "empty_id", "bad_child_id", "bad_wiring_id"}


def mutate(t, muts):
    """Spoil a TreeStructure message in place. -> names of the mutations that took effect."""
    from ros_bt_py_interfaces.msg import NodeDataLocation, Wiring
    done = []
    for kind, a, b in muts:
        ns = t.nodes
        if not ns:
            break
        x, y = ns[a % len(ns)], ns[b % len(ns)]
        if kind == "dup_id":
            if x is y:
                continue
            old, x.node_id = x.node_id, y.node_id
        elif kind == "dangling":
            x.child_ids = list(x.child_ids) + ["99999999-2222-3333-4444-555555555555"]
        elif kind == "two_parents":
            ps = [n for n in ns if n.child_ids]
            if not ps or len(ns) < 3:
                continue
            c = ps[0].child_ids[0]
            o = next((n for n in ns if n.node_id not in (ps[0].node_id, c)), None)
            if o is None:
                continue
            o.child_ids = list(o.child_ids) + [c]
        elif kind == "self_child":
            x.child_ids = list(x.child_ids) + [x.node_id]
        elif kind == "cycle":
            leafs = [n for n in ns if not n.child_ids]
            if not leafs:
                continue
            leafs[a % len(leafs)].child_ids = [ns[0].node_id]
        elif kind == "dup_child":
            ps = [n for n in ns if n.child_ids]
            if not ps:
                continue
            ps[0].child_ids = list(ps[0].child_ids) + [ps[0].child_ids[0]]
        elif kind == "dup_wiring":
            if not t.data_wirings:
                continue
            t.data_wirings = list(t.data_wirings) + [copy.deepcopy(t.data_wirings[0])]
        elif kind in ("wiring_ghost", "wiring_port", "wiring_type", "bad_wiring_id"):
            w = Wiring(source=NodeDataLocation(node_id=x.node_id, data_key="out"), target=NodeDataLocation(node_id=y.node_id, data_key="inp"))
            if kind == "wiring_ghost":
                w.source.node_id = "99999999-2222-3333-4444-555555555555"
            elif kind == "bad_wiring_id":
                w.target.node_id = "nonsense"
            elif kind == "wiring_port":
                w.source.data_key = "nope"
            else:
                src = [n for n in ns if n.node_class == "SimSource"]
                dst = [n for n in ns if n.node_class == "SimSink"]
                if not src or not dst:
                    continue
                w.source.node_id, w.target.node_id, w.source.data_key = src[0].node_id, dst[0].node_id, "text"
            t.data_wirings = list(t.data_wirings) + [w]
        elif kind == "bad_class":
            x.node_class = "NoSuchNode"
        elif kind == "bad_module":
            x.module = ["no.such.module", "", "os", "btsim.testnodes.nope"][b % 4]
        elif kind == "bad_id":
            x.node_id = "nonsense"
        elif kind == "empty_id":
            x.node_id = ""
        elif kind == "bad_child_id":
            x.child_ids = list(x.child_ids) + ["nonsense"]
        elif kind == "bad_value":
            st = [i for n in ns for i in n.inputs if i.type.is_static]
            if not st:
                continue
            st[a % len(st)].serialized_value = ["{", "[1", "\"str\"", "null", "1e999"][b % 5]
        elif kind == "unset_option":
            st = [n for n in ns if n.inputs]
            if not st:
                continue
            st[a % len(st)].inputs = list(st[a % len(st)].inputs)[1:]
        elif kind == "bad_type":
            st = [i for n in ns for i in n.inputs]
            if not st:
                continue
            st[a % len(st)].type.type_identifier = [0, 99, 6][b % 3]
        elif kind == "wrong_root":
            t.root_id = ["nonsense", "", "99999999-2222-3333-4444-555555555555"][b % 3]
        elif kind == "two_roots":
            ps = [n for n in ns if n.child_ids]
            if not ps:
                continue
            ps[0].child_ids = list(ps[0].child_ids)[1:]
        elif kind == "no_name":
            t.name = ""
        elif kind == "rate":
            t.tick_frequency_hz = [0.0, -1.0, float("nan"), float("inf"), 300.0][b % 5]
        done.append(kind)
    return done


_ = base
