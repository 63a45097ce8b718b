"""C31 Data nodes always reflect the inputs they hold."""
import base64

from .. import base, datamodels, models, nodecheck, nodeprop
from .. import disk as D
from .. import tree as T
from ..datamodels import ANY, DATA
from ..kernel import MS

MAX = 2 ** 64 - 1616
I = {"type_identifier": 2, "min_value": str(-2 ** 63), "max_value": str(2 ** 63 - 1)}  # noqa
TX = {"type_identifier": 4, "max_length": MAX}
B = {"type_identifier": 1}
FL = {"type_identifier": 3, "min_value": "-1.7976931348623157e308", "max_value": "1.7976931348623157e308"}
LI = {"type_identifier": 5, "max_length": MAX, "strict_length": False, "element_type": I}
DI = dict(LI, type_identifier=6)
TYPES = {"I": I, "T": TX, "B": B, "F": FL, "L": LI, "M": DI}
STR, NODE = "std_msgs/msg/String", "ros_bt_py_interfaces/msg/NodeState"
INTS = [0, 0, 1, 1, 2, 3, -1, 7, 2 ** 62, -2 ** 63]
TEXTS = ["", "a", "b", "c", "x.tar.gz", ".hid", "/p.d/f", "/p/..a.b", "ä.Ö", "data", "nope", "node_id", "state", "p_int", "p_none", "p_gone", "k", "a.b/c"]
FORMATS = ["", "{a}", "{a} {b}", "x{{{a}}}", "{zz}", "{a", "}", "{b!u}", "{a!s}{a!r}", "{b!a}", "{a!x}", "plain", "{a!l}-{k!c}"]
REALS = [0.0, 1.0, -2.5, 0.5, 2.0]
PATHS = ["file:///disk/data/a", "file:///disk/data/b", "package://simpkg/a", "package://simpkg/sub/c", "package://nopkg/a", "package:///bad", "file:///disk/data",
         "file:///disk/data/gone", "file:///disk/data/n\0l", "file://", "package://simpkg"]
CONTENTS = ["- 1\n- 2\n", "[3, 4, 5]\n", "- a\n- b\n", "a: 1\nb: 2\n", "1: x\n2: y\n", "[]", "{}", "", "just text", "- [1\n", "a: [", "- 1\n- x\n", "a: 1\nb: x\n", "- 18446744073709551616\n",
            "k: {z: 1}\n", "\t- x", "!!python/object:os.system {}\n", "- &x 1\n- *x\n", "- 1\n" * 50, "a: 1\na: 2\n", "a: 2020-01-01\n", "? [1, 2]\n: 3\n"]
GOOD = {"YamlList": ["- 1\n- 2\n", "[3, 4, 5]\n", "- a\n- b\n"], "YamlDict": ["a: 1\nb: 2\n", "{c: 3}\n", "a: x\nb: y\n"]}
RAW = [b"\xff\xfe\x00a", b"- \xe4\n", b"- 1\n\x00", b"\xef\xbb\xbf- 1\n", b"[" * 3000]


def val(rng, t):
    if t == "I":
        return rng.choice(INTS)
    if t == "X":
        return rng.choice([0, 0, 1, 1, 2, 5])
    if t == "T":
        return rng.choice(TEXTS)
    if t == "B":
        return rng.random() < 0.5
    if t == "F":
        return rng.choice(REALS)
    if t == "L":
        return [rng.choice(INTS[:6]) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]
    if t == "N":
        return [rng.choice(rng.choice([["a", "b", "k"], FORMATS])) for _ in range(rng.choice([0, 1, 2, 2]))]
    if t == "M":
        return {k: rng.choice(INTS[:8]) for k in ("a", "b", "k", "c") if rng.random() < 0.6}
    if t == "P":
        return rng.choice(PATHS[:4]) if rng.random() < 0.7 else rng.choice(PATHS)
    raise KeyError(t)


def some(rng, ts):
    return rng.choice(ts)


def node(rng, k):
    """(class, options, wirable inputs {key: type tag}, outputs {key: type tag}, may have a child)"""
    t = some(rng, ["I", "I", "T", "B", "L", "M"])
    n = some(rng, ["I", "F"])
    e = some(rng, ["I", "T"])
    st = {"succeed_on_stale_data": rng.random() < 0.5}
    return {
        "Constant": ({"constant_type": TYPES[t], "constant_value": val(rng, t)}, {}, {"constant": t}),
        "PassthroughNode": ({"passthrough_type": TYPES[t]}, {"in": t}, {"out": t}),
        "Compare": ({"compare_type": TYPES[t]}, {"a": t, "b": t}, {}),
        "CompareNewOnly": ({"compare_type": TYPES[t]}, {"a": t, "b": t}, {}),
        "ALessThanB": ({"operand_type": TYPES[n]}, {"a": n, "b": n}, {}),
        "ListLength": ({"element_type": I}, {"list": "L"}, {}),
        "InsertInList": ({"element_type": I}, {"list": "L", "index": "X", "element": "I"}, {"list": "L"}),
        "IsInList": ({"compare_type": I}, {"list": "L", "in": "I"}, {}),
        "AppendListItem": ({"list_type": I}, {"list": "L", "value": "I"}, {"new_list": "L"}),
        "SetDictItem": ({"attr_type": I}, {"attr_name": "T", "object": "M", "attr_value": "I"}, {"new_object": "M"}),
        "StringConcatenation": ({}, {"a": "T", "b": "T"}, {"formatted_string": "T"}),
        "FormatString": ({"format_string": rng.choice(FORMATS)}, {"dict": "M"}, {"formatted_string": "T"}),
        "FormatStringList": ({}, {"format_strings": "N", "dict": "M"}, {"formatted_strings": "N"}),
        "GetFileExtension": ({}, {"path": "T"}, {"filename": "T", "extension": "T"}),
        "Convert": ({"input_type": TYPES[e if t in "LM" else t], "output_type": TYPES[some(rng, ["I", "T", "B"])]}, {"in": e if t in "LM" else t}, {}),
        "Operation": ({"operand_type": TYPES[n], "operator": rng.choice(sorted(datamodels.OPS))}, {"a": n, "b": n}, {"result": n}),
        "UnaryOperation": ({"operand_type": TYPES[n], "operator": rng.choice(sorted(datamodels.UNARY))}, {"in": n}, {"result": n}),
        "RandomInt": ({}, {"min": "I", "max": "I"}, {}),
        "FieldsToMessage": ({"output_type": STR}, {}, {"out": "S"}),
        "MessageToFields": ({"input_type": STR}, {"in": "S"}, {}),
        "EnumFields": ({"ros_message_type": rng.choice([STR, NODE, NODE])}, {}, {}),
        "SetAttr": ({"object_type": STR, "attr_type": TX, "attr_name": rng.choice(["data", "data", "data", "nope"])}, {"object": "S", "attr_value": "T"}, {"new_object": "S"}),
        "GetAttr": (dict(st, object_type=STR, attr_type=TX), {"object": "S", "attr_name": "T"}, {"attr": "T"}),
        "RosParam": ({"param_type": I}, {"param_name": "T", "default_value": "I"}, {"param": "I"}),
        "GetListItem": (dict(st, list_type=I), {"list": "L", "index": "X"}, {"item": "I"}),
        "GetDictItem": (dict(st, value_type=I), {"key": "T", "dict": "M"}, {"value": "I"}),
        "GetMultipleDictItems": (dict(st, value_type=I), {"keys": "N", "dict": "M"}, {"values": "L"}),
        "IterateList": ({"item_type": I}, {"list": "L"}, {"list_item": "I"}),
        "YamlList": ({"element_type": TYPES[e]}, {"file_path": "P"}, {"content": "L"} if e == "I" else {}),
        "YamlDict": ({"element_type": TYPES[e]}, {"file_path": "P"}, {"content": "M"} if e == "I" else {}),
    }[k]


WRAP = ["GetListItem", "GetDictItem", "GetMultipleDictItems", "GetAttr", "IterateList", "IterateList"]
STATE = ["IterateList", "YamlList", "YamlDict", "CompareNewOnly", "GetListItem", "GetDictItem", "GetMultipleDictItems", "GetAttr"]
SRC = {"SimData": {"o_num": "I", "o_text": "T", "o_items": "L", "o_map": "M", "o_flag": "B"}, "SimMore": {"names": "N", "index": "X", "path": "P", "real": "F"}}


class C31(base.Session):
    id = "C31"
    quick_total = 160
    nvariants = 2
    rule = "a run counts when the answer and outputs of a data node with wired inputs were compared with its reference model"
    shrink_lists = base.Session.shrink_lists + ["wirings", "params"]

    def nontrivial(self, r):
        return r["extra"].get("outputs_checked", 0) > 0

    def gen(self, rng, i):
        focus = rng.choice(sorted(set(DATA) - set(WRAP)) + ["YamlList", "YamlDict", "CompareNewOnly"] * 2) if rng.random() < 0.35 else None     # (few nodes, all of one class, ticked often)
        spec = {"c": "SimPair", "n": "r", "ch": [{"c": "DATA", "n": "a"}, {"c": "DATA", "n": "b"}]} if focus else base.gen_tree(rng, rng.randint(4, 11), width=(2, 3, 3, 4), comps=rng.choice([["SimPair"], ["SimPair", "SimPair", "Sequence"], ["SimPair", "Parallel", "Sequence", "Fallback", "MemorySequence"]]),
                             pdeco=0.45, decos=["X", "X", "Inverter", "IgnoreFailure"], leaf=["DATA", "DATA", "DATA", "SimLeaf", "SimData", "SimMore"])
        sources = [{"c": c, "n": f"s{j}"} for j, c in enumerate(rng.choice([["SimData", "SimMore"], ["SimData", "SimMore", "SimData"]]))]
        top = "Pairs" if focus else rng.choice(["Sequence", "Pairs", "Pairs", "Pairs", "Parallel"])
        if top == "Pairs":      # (these do not reset their children when they start again)
            for j, s in reversed(list(enumerate(sources))):
                spec = {"c": "SimPair", "n": f"top{j}", "ch": [s, spec]}
        else:
            spec = {"c": top, "n": "top", "ch": sources + [spec]}
            if top == "Parallel":
                spec["i"] = {"needed_successes": len(spec["ch"])}
        order = list(T.names(spec))
        pos = {s["n"]: j for j, s in enumerate(order)}
        below = {s["n"]: {x["n"] for x in T.names(s)} for s in order}
        outs, info = {}, {}
        for s in order:
            if s["c"] in ("DATA", "X"):
                c = focus or rng.choice(WRAP) if s["c"] == "X" or focus else rng.choice(STATE) if rng.random() < 0.45 else rng.choice(sorted(DATA))
                s["c"] = c
                s["i"], ins, o = node(rng, c)
                info[s["n"]] = ins
            else:
                o = SRC.get(s["c"], {})
            for k, t in o.items():
                outs.setdefault(t, []).append((s["n"], k))
        wir = []
        for s in order:
            if s["c"] == "FieldsToMessage":
                s["x"] = {"data": ["SimData", "text"]}
                wir.append(["s0", "o_text", s["n"], "data"])
            for k, t in info.get(s["n"], {}).items():
                kid = s["c"] in WRAP and s["c"] != "IterateList" and s.get("ch")
                c = [x for x in outs.get(t, []) if x[0] != s["n"] and (pos[x[0]] < pos[s["n"]] or kid and x[0] in below[s["n"]]) and (kid or x[0] not in below[s["n"]])]
                if kid and rng.random() < 0.7:
                    c = [x for x in c if x[0] in below[s["n"]]] or c
                if c and (t in "SN" and rng.random() < 0.9 or rng.random() < (0.95 if focus else 0.8)):
                    x = rng.choice(c)
                    s.setdefault("dyn", []).append(k)
                    wir.append([x[0], x[1], s["n"], k])
                elif t != "S":
                    s["i"][k] = val(rng, t)
                else:
                    s.setdefault("dyn", []).append(k)
        leaf = base.gen_script(rng, spec, p=rng.choice([(0.9, 0.05, 0.05), (0.6, 0.15, 0.25)]), pd=0.05, teardown=0.03)
        for s in order:
            o = SRC.get(s["c"])
            if not o or s["n"] not in leaf:
                continue
            t = leaf[s["n"]]["tick"]
            hold = rng.choice([0.2, 0.5, 0.9])
            for j, e in enumerate(t):
                x = {k: val(rng, v) for k, v in o.items() if j == 0 or rng.random() > hold}
                if x:
                    t[j] = dict(e) if isinstance(e, dict) else {"r": e}
                    t[j]["out"] = x
                if j == 0 and s["n"] in ("s0", "s1", "s2"):
                    t[j]["r"] = "S"
        files = {p: self.content(rng, focus) for p in ("data/a", "data/b", "pkg/a", "pkg/sub/c") if rng.random() < 0.85}
        ops = []
        for _ in range(rng.randint(4, 12)):
            x = rng.random()
            if focus and x < 0.6:
                op = {"op": "control", "cmd": "TICK_ONCE"}
                ops += [dict(op, wait=base.wait_choice(rng)) for _ in range(rng.randint(0, 3))]
            elif x < 0.7:
                op = base.gen_control(rng, [7, 6, 5, 2, 3, 2, 1, 0])
                if op["cmd"] in ("TICK_PERIODICALLY", "TICK_UNTIL_RESULT"):
                    op["wait"] = 0
                    ops.append(op)
                    op = {"op": "control", "cmd": "STOP", "wait": rng.choice([250, 600, 1500]) * MS}
                    ops.append(op)
                    continue
                if op["cmd"] == "TICK_ONCE":
                    ops += [dict(op, wait=base.wait_choice(rng)) for _ in range(rng.randint(0, 4))]
            elif x < 0.82:
                op = {"op": "file", "path": rng.choice(["data/a", "data/b", "pkg/a", "pkg/sub/c"]), **(self.content(rng, focus) if rng.random() < 0.8 else {"gone": True})}
            elif x < 0.92:
                op = {"op": "param", "name": rng.choice(["p_int", "p_none", "k", "a"]), "v": rng.choice([1, 5, None, "text", -2])}
            else:
                op = {"op": rng.choice(["pubdata", "diag", "pubsub"]), "v": rng.random() < 0.5}
            op["wait"] = base.wait_choice(rng)
            ops.append(op)
        sc = dict(tree=spec, wirings=wir, leaf=leaf, stored=files, params={"p_int": 4, "p_none": None}, hz=rng.choice([10.0, 20.0, 50.0]),
                  clients=[{"name": "c1", "ops": ops}])
        if rng.random() < 0.3:
            sc["clients"].append({"name": "c2", "ops": [dict(rng.choice(ops), wait=base.wait_choice(rng)) for _ in range(rng.randint(1, 4))]})
        if rng.random() < 0.3:
            sc["disk"] = [{"kind": rng.choice(["open", "read"]), "nth": rng.randint(1, 12), "fault": rng.choice(["EACCES", "EIO", "EMFILE", "ENOENT", "stall"]), "ns": 30 * MS}
                          for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.1 and base.leaves(spec):
            sc["node_faults"] = [{"node": rng.choice(base.leaves(spec)), "op": "tick", "nth": rng.randint(0, 5), "do": rng.choice(["ERR", "EXC"])}]
        return sc

    @staticmethod
    def content(rng, focus=None):
        if focus in GOOD and rng.random() < 0.7:
            return {"text": rng.choice(GOOD[focus])}
        if rng.random() < 0.2:
            return {"raw": base64.b64encode(rng.choice(RAW)).decode()}
        return {"text": rng.choice(CONTENTS)}

    # ------------------------------------------------------------------------------------------ environment ----
    def setup_env(self, w, sc):
        w.params.update(sc["params"])
        w.packages = {"simpkg": w.scratch + "/pkg"}
        for d in ("/data", "/pkg/sub"):
            D._r["makedirs"](w.scratch + d, exist_ok=True)
        w.versions = {}
        for p, x in sc["stored"].items():
            self.store(w, p, x)
        w.contents = lambda path, d: contents(w, path, d)

    def store(self, w, p, x):
        path = f"{w.scratch}/{p}"
        b = None if x.get("gone") else x["text"].encode() if "text" in x else base64.b64decode(x["raw"])
        if b is None:
            if D._r["exists"](path):
                D._r["unlink"](path)
        else:
            with D._r["open"](path + "~", "wb") as h:
                h.write(b)
            D._r["replace"](path + "~", path)
        w.versions.setdefault(path, []).append((len(w.k.log), b))

    def one(self, w, sc, name, op):
        if op["op"] == "file":
            w.k.atomically(lambda: self.store(w, op["path"], op))
        elif op["op"] == "param":
            w.params[op["name"]] = op["v"]
            w.parts.append((len(w.k.log), op["name"]))
        else:
            return super().one(w, sc, name, op)
        w.k.rec(op["op"], str(op))
        return True

    def prepare(self, w, sc):
        super().prepare(w, sc)
        w.parts = []
        w.inv.append(lambda w, d, phase: w.k.atomically(lambda: record(w, d, phase)))

    # ------------------------------------------------------------------------------------------------ check ----
    def check(self, w, sc):
        models.MODELS.update(DATA)
        nodecheck.run(w, set(DATA))
        if self.died(w) or w.violations:
            return
        for d in sorted((d for d in w.ops if d.get("alts")), key=lambda d: d["s1"]):
            if d["res"].startswith(("ERR", "EXC")) or "out" not in d:
                continue
            bad = None
            for r, out in d["alts"]:
                if r != d["res"]:
                    continue
                x = differs(d, out)
                if x is None:
                    bad = None
                    break
                bad = bad or x
            if bad:
                return w.violation("output", f"tick of {d['cls']} {d['node']} ({d['res']}): output {bad}")
            w.k.count("outputs_checked", 1)


def differs(d, out):
    for k, v in d["out"].items():
        want = out.get(k, d["out0"].get(k))
        if want is ANY or callable(want) and want(v):
            continue
        if type(v) is not type(want) or v != want:
            return f"{k} holds {str(v)[:60]!r} instead of {'a proper value' if callable(want) else repr(str(want)[:60])}"


def record(w, d, phase):
    if phase == "begin":
        if d["op"] == "tick" and d["cls"] in DATA:
            d["in"] = snap(d["obj"])
            d["out0"] = outputs(d["obj"])
        return
    if d["op"] == "tick" and d["cls"] in DATA:
        d["out"] = outputs(d["obj"])
    p = w.opstack[d["thr"]][-1] if w.opstack[d["thr"]] else None
    if p is not None and p["op"] == "tick" and p["cls"] in DATA:
        d["parent_in"] = snap(p["obj"])


def snap(o):
    return {k: (c.get_value().unwrap_or(None), bool(c.is_updated())) for k, c in o.node_config.inputs.items()}


def outputs(o):
    return {k: c.get_value().unwrap_or(None) for k, c in o.node_config.outputs.items()}


def contents(w, uri, d):
    """What the file may have held during the operation (None: nothing readable)."""
    out = []
    if any(d["s0"] <= h[0] <= d["s1"] and h[2] != "stall" for h in w.disk.hits):
        out.append(None)
    scheme, _, rest = uri.partition("://")
    if scheme == "package":
        p, _, rest = rest.partition("/")
        if p != "simpkg":
            return [None]
        rest = w.packages[p] + "/" + rest
    v = w.versions.get(rest, [])
    if not v or v[0][0] > d["s0"]:
        out.append(None)
    for j, (s, b) in enumerate(v):
        if s <= d["s1"] and (j + 1 == len(v) or v[j + 1][0] >= d["s0"]):
            out.append(b)
    return out


PROP = C31()
