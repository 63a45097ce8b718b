"""Bad tree files: how they are made, and what a tree description must be like to be consistent."""
import os
import re

import yaml

from . import editgen, stubs, subgen
from . import tree as T
from .storage import Loader
from .world import DOCS

HEAD = f"version: {subgen.VERSION}\n"


# text -> text; everything here makes the file something else than a tree
def sub(pattern, by, s, count=0):
    return re.sub(pattern, lambda m: by, s, count=count)


TEXTS = {
    "empty": lambda s, a, b: ["", "\n\n", "# nothing\n", "---\n---\n", "null\n", "..."][a % 6],
    "list": lambda s, a, b: ["- 1\n- 2\n", "[]\n", "- " + s.replace("\n", "\n  ")][a % 3],
    "scalar": lambda s, a, b: ["hello", "5", "true", "2024-01-01", "1.5", "\"version\""][a % 6],
    "two_docs": lambda s, a, b: s + "---\n" + [s, "x: 1\n", "- 1\n", "5\n"][a % 4],
    "no_version": lambda s, a, b: s.replace(HEAD, "", 1),
    "bad_version": lambda s, a, b: s.replace(HEAD, "version: " + ["abc", "0.9.0", "''", "[1, 0]", "null", "-1", "0.17.0", "{a: 1}"][a % 8] + "\n", 1),
    "new_field": lambda s, a, b: s + ["strange: 1\n", "node: []\n", "_name: x\n", "5: 6\n", "SLOT_TYPES: 1\n"][a % 5],
    "node_field": lambda s, a, b: s.replace("  node_class:", ["  strange: 1\n  node_class:", "  class: x\n  node_class:"][a % 2], 1),
    "bad_nodes": lambda s, a, b: re.sub(r"(?ms)^nodes:.*?(?=^\w)", ["nodes: 5\n", "nodes: [1, 2]\n", "nodes: hello\n", "nodes: null\n", "nodes:\n- [a]\n",
                                                                    "nodes:\n- null\n", "nodes: {a: 1}\n"][a % 7], s, count=1),
    "bad_rate": lambda s, a, b: re.sub(r"(?m)^tick_frequency_hz:.*", "tick_frequency_hz: " + ["fast", "null", "[]", "{}", "'10 Hz'"][a % 5], s),
    "bad_wirings": lambda s, a, b: re.sub(r"(?ms)^data_wirings:.*?(?=^\w)", ["data_wirings: 5\n", "data_wirings: [1]\n", "data_wirings: x\n",
                                                                             "data_wirings:\n- source: 5\n", "data_wirings:\n- {}\n"][a % 5], s, count=1),
    "yaml_error": lambda s, a, b: s + ["\t- x: [\n", "}\n", "a: b: c\n", "'", "&a [*a, *b]\n", "!!python/object:os.system x\n", "<<: 5\n"][a % 7],
    # undecided ones: whether the result still describes a tree depends on where
    "cut": lambda s, a, b: s[:len(s) * a // 997],
    "cut_line": lambda s, a, b: "".join(s.splitlines(True)[:len(s.splitlines()) * a // 997]),
    "del_line": lambda s, a, b: "".join(x for i, x in enumerate(s.splitlines(True)) if i != a % max(1, len(s.splitlines()))),
    "dup_line": lambda s, a, b: "".join(x * (1 + (i == a % max(1, len(s.splitlines())))) for i, x in enumerate(s.splitlines(True))),
    "flip": lambda s, a, b: s[:len(s) * a // 997] + "x0: -\x00\"[{\n#"[b % 11] + s[len(s) * a // 997 + 1:],
    "del_block": lambda s, a, b: s[:len(s) * min(a, b) // 997] + s[len(s) * max(a, b) // 997:],
    "rate": lambda s, a, b: re.sub(r"(?m)^tick_frequency_hz:.*", "tick_frequency_hz: " + ["0.0", "-1.0", ".nan", ".inf", "-.inf", "0.2", "'5'",
                                                                                          "0.5", "30", "true"][a % 10], s),
    "name": lambda s, a, b: sub(r"(?m)^name:.*", "name: " + ["''", "5", "null", "[a, b]", "{a: b}", "true", "1.5", "\"\\0\"", "\"\\ud800\"", "\"a\\nb\""][a % 10],
                                   s, count=1),
    "value": lambda s, a, b: re.sub(r"(?m)^    serialized_value:.*", "    serialized_value: " + ["'{'", "5", "null", "'\"s\"'", "''", "'1e999'", "[1]", "'[1'",
                                                                                               "'99999999999999999999'", "'NaN'"][a % 10], s,
                                    count=1 + b % 3),
    "type": lambda s, a, b: re.sub(r"(?m)^      type_identifier:.*", "      type_identifier: " + ["0", "99", "6", "300", "-1", "x", "null", "255"][a % 8], s,
                                   count=1 + b % 3),
    "root": lambda s, a, b: re.sub(r"(?m)^root_id:.*", "root_id: " + ["nonsense", "''", "99999999-2222-3333-4444-555555555555", "5", "null"][a % 5], s),
    "public": lambda s, a, b: re.sub(r"(?m)^public_(in|out)puts:.*", lambda m: m.group(0).split(":")[0] + ": " + [
        "[{node_id: nope, data_key: x}]", "5", "[{}]", "null", "[{node_id: 00000000-0000-0000-0000-000000000001, data_key: nope}]"][a % 5], s, count=1 + b % 2),
    "version": lambda s, a, b: s.replace(HEAD, "version: " + ["1.0", "2.0.0", "1", "v1.0.0", "'1.0.0'", "1.0.0.dev1", "99.1"][a % 7] + "\n", 1),
    "crlf": lambda s, a, b: s.replace("\n", "\r\n"),
    "bom": lambda s, a, b: "\ufeff" + s,
    "tail": lambda s, a, b: s + ["---\n", "...\n", "# end", "\n\n", "--- # x\n...\n"][a % 5],
}
BYTES = {
    "binary": lambda s, a, b: [bytes(range(256)), b"\xff\xfe" + s, b"\0" * 40, b"\x80abc", s.decode().encode("utf-16"), s[:30] + b"\xc3\x28" + s[30:],
                               b"\x89PNG\r\n\x1a\n"][a % 7],
    "byte": lambda s, a, b: s[:len(s) * a // 997] + bytes([[0xff, 0x80, 0, 0xc3, 7, 0x1b][b % 6]]) + s[len(s) * a // 997 + 1:],
}
KINDS = list(TEXTS) + list(BYTES)
PLACES = ["fifo", "dir", "missing", "noperm_dir"]


def gen_file(rng, i, tree, wirings):
    f = {"path": f"/disk/store/bad{i}.yaml", "tree": tree, "wirings": wirings, "name": f"bad{i}"}
    x = rng.random()
    if x < 0.5:
        k = rng.choice(KINDS + ["cut", "cut", "flip", "del_line", "del_line", "del_block", "dup_line"])
        f["spoil"] = [[k, rng.randrange(997), rng.randrange(997)]]
        if rng.random() < 0.1:
            f["spoil"].append([rng.choice(KINDS), rng.randrange(997), rng.randrange(997)])
    elif x < 0.85:
        f["mut"] = [editgen.gen_mut(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
    elif x < 0.92:
        f["place"] = rng.choice(PLACES)
    return f


def content(f):
    t, _ = T.tree_msg(f["tree"], name=f["name"], wirings=f.get("wirings", ()), rate=f.get("hz", 10.0))
    editgen.mutate(t, f.get("mut", []))
    data = HEAD + stubs.message_to_yaml(t)
    for k, a, b in f.get("spoil", []):
        if k in BYTES:
            data = BYTES[k](data.encode(errors="surrogatepass") if isinstance(data, str) else data, a, b)
        elif isinstance(data, str):
            data = TEXTS[k](data, a, b)
    return data if isinstance(data, bytes) else data.encode(errors="surrogatepass")


def write(w, f):
    p = f["path"].replace("/disk", w.scratch)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    place = f.get("place")
    if place == "fifo":
        os.mkfifo(p)
    elif place == "dir":
        os.mkdir(p)
    elif place != "missing":
        with open(p, "wb") as h:
            h.write(content(f))


def read(p):
    """What a tree file says: (tree as plain data, None) or (None, why it is no tree file)"""
    if not os.path.isfile(p):
        return None, "no file"
    try:
        with open(p, "rb") as h:
            data = h.read()
    except OSError as e:
        return None, str(e)
    try:
        docs = [d for d in yaml.load_all(data.decode(), Loader=yaml.SafeLoader) if d is not None]
    except RecursionError:
        return None, "recursion"
    except Exception as e:
        return None, f"{type(e).__name__}"
    if len(docs) != 1 or not isinstance(docs[0], dict):
        return None, f"{len(docs)} documents" if len(docs) != 1 else "not a mapping"
    d = dict(docs[0])
    from packaging.version import Version
    try:
        if Version(d.pop("version")) < Version(subgen.VERSION):
            return None, "old version"
    except Exception:
        return None, "no version"
    return d, None


_FIELDS = {}


def fields(cls):
    if cls not in _FIELDS:
        _FIELDS[cls] = dict(cls.get_fields_and_field_types())
    return _FIELDS[cls]


def inconsistent(d):
    """Why this description (plain data as found in a file) cannot be loaded; None: maybe it can."""
    from ros_bt_py_interfaces.msg import NodeStructure, TreeStructure
    for k in d:
        if k not in fields(TreeStructure):
            return f"unknown field {k}"
    for k in ("nodes", "data_wirings", "public_inputs", "public_outputs"):
        v = d.get(k, [])
        if not isinstance(v, list):
            if k == "nodes" or v not in ("", {}, ()):
                return f"{k} is not a list"
            continue
        if not all(isinstance(x, dict) for x in v):
            return f"an entry of {k} is not a mapping"
    try:
        if d.get("tick_frequency_hz") != {}:               # (an empty mapping sets no field)
            float(d.get("tick_frequency_hz", 0.0))
    except (TypeError, ValueError):
        return "tick frequency is not a number"
    nodes = d.get("nodes", [])
    ids = {}
    for n in nodes:
        for k in n:
            if k not in fields(NodeStructure):
                return f"unknown node field {k}"
        i = n.get("node_id", "")
        if not isinstance(i, str) or canon(i) is None:
            return f"node id {i!r}"
        if canon(i) in ids:
            return f"two nodes have the id {i}"
        ids[canon(i)] = n
        if not isinstance(n.get("child_ids", []), list) or not isinstance(n.get("inputs", []), list):
            return "children or inputs are not a list"
        c = n.get("node_class", "")
        if c not in DOCS or n.get("module", "") != DOCS[c].module:
            return f"unknown class {n.get('module')}.{c}"
    parent = {}
    for i, n in ids.items():
        ch = [canon(c) if isinstance(c, str) else None for c in n.get("child_ids", [])]
        m = DOCS[n["node_class"]].max_children
        if 0 <= m < len(ch):
            return f"too many children of {n['node_class']}"
        for c in ch:
            if c not in ids:
                return "dangling child"
            if c in parent:
                return "child with two parents"
            parent[c] = i
    for i in ids:
        seen = set()
        while i is not None:
            if i in seen:
                return "cycle"
            seen.add(i)
            i = parent.get(i)
    for x in d.get("data_wirings", []):
        for end, io in (("source", "outputs"), ("target", "inputs")):
            e = x.get(end, {})
            if not isinstance(e, dict):
                return "wiring"
            n = ids.get(canon(str(e.get("node_id", ""))))
            if n is None:
                return "wiring to a missing node"
            if e.get("data_key", "") not in {q.key for q in getattr(DOCS[n["node_class"]], io)}:
                return "wiring to a missing key"
    return None


def canon(i):
    import uuid
    try:
        return str(uuid.UUID(i))
    except ValueError:
        return None


def view(d):
    """What a consistent description says, comparable with the loaded tree."""
    def s(x):
        return x if isinstance(x, str) else str(x)
    nodes = {}
    for n in d.get("nodes", []):
        c = n["node_class"]
        nodes[canon(n["node_id"])] = dict(cls=c, name=s(n.get("name", "")) or c, children=[canon(x) for x in n.get("child_ids", [])])
    wir = {(canon(x["source"]["node_id"]), x["source"]["data_key"], canon(x["target"]["node_id"]), x["target"]["data_key"])
           for x in d.get("data_wirings", [])}
    return dict(name=s(d.get("name", "")), nodes=nodes, wirings=sorted(wir))
