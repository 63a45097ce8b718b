"""Trees that contain subtrees: generation of the stored files and of the trees that refer to them."""
import os

from . import base, stubs
from . import tree as T
from .world import uid

INT = {"type_identifier": 2, "min_value": "-9223372036854775808", "max_value": "9223372036854775807"}


def io_node(cls, name):
    return {"c": cls, "n": name, "i": {"io_type": INT}, "dyn": ["in"]}


def node_id(spec, name):
    """The id a node gets when this tree is loaded on its own."""
    return uid([s["n"] for s in T.names(spec)].index(name) + 1)


def gen_file(rng, i, deeper=(), size=5, io=True, pio=0.7):
    """One stored tree. deeper: files it may use as subtrees itself."""
    p = f"f{i}_"
    cnt = [0]

    def mk(b, d):
        cnt[0] += 1
        n = f"{p}{cnt[0]}"
        if b <= 1 or d <= 0:
            x = rng.random()
            if x < 0.2 and deeper:
                return use(rng.choice(deeper), n)
            c = rng.choice(["SimLeaf", "SimSource", "SimSink"])
            return {"c": c, "n": n, "i": {}, **({"dyn": ["inp"]} if c == "SimSink" else {})}
        c = rng.choice(["Sequence", "Fallback", "MemorySequence", "SimPair", "Inverter", "Sequence"])
        k = 1 if c == "Inverter" else rng.choice([1, 2]) if c == "SimPair" else rng.choice([1, 2, 3])
        k = min(k, b - 1)
        left, ch = b - 1, []
        for j in range(k):
            x = left if j == k - 1 else rng.randint(1, max(1, left - (k - 1 - j)))
            left -= x
            ch.append(mk(max(1, x), d - 1))
        return {"c": c, "n": n, "ch": ch}
    body = mk(rng.randint(1, size), 3)
    wirings = []
    if io and rng.random() < pio:
        body = {"c": rng.choice(["Sequence", "Sequence", "MemorySequence"]), "n": p + "r", "ch": [body]}
        sinks = [s["n"] for s in T.names(body) if s["c"] == "SimSink"]
        if not sinks:
            body["ch"].insert(0, {"c": "SimSink", "n": p + "k", "i": {}, "dyn": ["inp"]})
            sinks = [p + "k"]
        if rng.random() < 0.8:
            two = rng.random() < 0.4
            if two:
                if len(sinks) == 1:
                    body["ch"].insert(0, {"c": "SimSink", "n": p + "k2", "i": {}, "dyn": ["inp"]})
                    sinks.append(p + "k2")
                body["ch"].insert(0, io_node("IOInput", p + "in2"))
            body["ch"].insert(0, io_node("IOInput", p + "in"))
            for s in sinks:
                if rng.random() < 0.8:
                    wirings.append([p + ("in2" if two and rng.random() < 0.5 else "in"), "out", s, "inp"])
        if rng.random() < 0.8:
            src = [s["n"] for s in T.names(body) if s["c"] in ("SimSource", "SimSink")]
            body["ch"].append(io_node("IOOutput", p + "out"))
            wirings.append([rng.choice(src), "out", p + "out", "in"])
    return {"path": f"/disk/store/sub{i}.yaml", "tree": body, "wirings": wirings, "name": f"sub{i}"}


def use(f, name):
    """A subtree node that refers to this file."""
    return {"c": "Subtree", "n": name, "i": {"subtree_path": "file://" + f["path"]}, "_f": f["path"]}


def ports(f):
    """(input keys, output keys) of a subtree node for this file"""
    ins = [node_id(f["tree"], s["n"]) + ".in" for s in T.names(f["tree"]) if s["c"] == "IOInput"]
    outs = [node_id(f["tree"], s["n"]) + ".out" for s in T.names(f["tree"]) if s["c"] == "IOOutput"]
    return ins, outs


def put(rng, spec, files, n):
    """Replace some leaves of a tree by subtree nodes. Returns their names."""
    out = []
    cand = [s for s in T.names(spec) if not s.get("ch") and s["c"] == "SimLeaf"]
    rng.shuffle(cand)
    for s in cand[:n]:
        f = rng.choice(files)
        s.update(use(f, s["n"]))
        out.append((s["n"], f))
    return out


def yaml_text(f):
    t, _ = T.tree_msg(f["tree"], name=f.get("name", "sub"), wirings=f.get("wirings", ()), rate=f.get("hz", 10.0))
    return f"version: {f.get('version', VERSION)}\n" + stubs.message_to_yaml(t)


VERSION = "1.0.0"


def write_files(w, files):
    for f in files:
        p = f["path"].replace("/disk", w.scratch)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as h:
            h.write(f["text"] if "text" in f else yaml_text(f))


def leaf_names(spec, files):
    out = base.leaves(spec)
    for f in files:
        if "tree" in f:
            out += [x for x in base.leaves(f["tree"]) if x not in out]
    return out
