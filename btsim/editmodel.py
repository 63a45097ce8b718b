"""Reference model of the editing requests, over a plain description of a tree.

view: {"name": str, "nodes": {id: {"cls", "name", "children": [ids], "parent": id|None, "inputs": {key: [static, json]}}},
       "wirings": sorted list of (source id, key, target id, key)}
"""
import copy

NIL = "00000000-0000-0000-0000-000000000000"


def snapshot(m):
    """The tree as the manager holds it."""
    nodes = {}
    for nid, n in m.nodes.items():
        ins = {}
        for k, c in n.node_config.inputs.items():
            ins[k] = [bool(c.is_static), c.serialize_value() if c.is_static else ""]
        nodes[str(nid)] = dict(cls=type(n).__name__, name=n.name, inputs=ins, children=[str(c.node_id) for c in n.children],
                               parent=str(n.parent.node_id) if n.parent is not None else None, max=n.node_config.max_children,
                               own=str(n.node_id), outs=sorted(n.node_config.outputs), same=all(m.nodes.get(c.node_id) is c for c in n.children)
                               and (n.parent is None or m.nodes.get(n.parent.node_id) is n.parent))
    return dict(name=m.name, nodes=nodes, wirings=[wkey(x) for x in m.wirings], rate=m.tick_frequency_hz, state=m.state)


def from_msg(t):
    """The tree as a published TreeStructure describes it."""
    nodes = {}
    for n in t.nodes:
        nodes[n.node_id] = dict(cls=n.node_class, name=n.name, children=list(n.child_ids), parent=None, max=None,
                                inputs={i.key: [bool(i.type.is_static), i.serialized_value if i.type.is_static else ""] for i in n.inputs})
    for i, n in nodes.items():
        for c in n["children"]:
            if c in nodes:
                nodes[c]["parent"] = i
    return dict(name=t.name, nodes=nodes, wirings=[wkey(x) for x in t.data_wirings], rate=t.tick_frequency_hz)


def wkey(x):
    return (str(x.source.node_id), x.source.data_key, str(x.target.node_id), x.target.data_key)


def comparable(v, inputs=True):
    """What has to be equal between two descriptions of the same tree."""
    return dict(name=v["name"], wirings=sorted(v["wirings"]),
                nodes={i: dict(cls=n["cls"], name=n["name"], children=n["children"], **({"inputs": n["inputs"]} if inputs else {}))
                       for i, n in v["nodes"].items()})


def diff(a, b):
    """Readable first difference between two comparable views."""
    if a["name"] != b["name"]:
        return f"tree name {a['name']!r} vs {b['name']!r}"
    for i in a["nodes"]:
        if i not in b["nodes"]:
            return f"node {a['nodes'][i]['name']} missing"
    for i in b["nodes"]:
        if i not in a["nodes"]:
            return f"extra node {b['nodes'][i]['name']}"
    for i, n in a["nodes"].items():
        o = b["nodes"][i]
        for k in n:
            if n[k] != o[k]:
                x, y = n[k], o[k]
                if k == "inputs":
                    ks = [q for q in set(x) | set(y) if x.get(q) != y.get(q)]
                    x, y = {q: x.get(q) for q in sorted(ks)}, {q: y.get(q) for q in sorted(ks)}
                if k == "children":
                    nm = lambda l: [(a["nodes"].get(q) or b["nodes"].get(q) or {"name": q})["name"] for q in l]  # noqa
                    x, y = nm(x), nm(y)
                return f"{k} of {n['name']}: {x} vs {y}"
    if a["wirings"] != b["wirings"]:
        nm = lambda w: ">".join([(a["nodes"].get(w[0]) or {"name": "?"})["name"], w[1], (a["nodes"].get(w[2]) or {"name": "?"})["name"], w[3]])  # noqa
        return f"wirings {[nm(x) for x in a['wirings'] if x not in b['wirings']]} vs {[nm(x) for x in b['wirings'] if x not in a['wirings']]} " \
               f"({len(a['wirings'])} vs {len(b['wirings'])})"
    return None


class Inapplicable(Exception):
    """The request cannot have succeeded on this tree."""


class Tree:
    def __init__(self, v):
        self.v = copy.deepcopy(v)
        self.n = self.v["nodes"]

    def need(self, i):
        if i not in self.n:
            raise Inapplicable(f"node {i} is not in the tree")
        return self.n[i]

    def insert(self, p, i, idx):
        ch = self.need(p)["children"]
        if idx is None:
            idx = len(ch)
        if idx < 0:
            idx += len(ch) + 1
        ch[idx:idx] = [i]
        self.n[i]["parent"] = p

    def detach(self, i):
        p = self.need(i)["parent"]
        if p is not None:
            self.n[p]["children"].remove(i)
        self.n[i]["parent"] = None

    def below(self, i):
        out, todo = [], [i]
        while todo:
            x = todo.pop()
            if x in out:
                raise Inapplicable("cycle")
            out.append(x)
            todo += self.need(x)["children"]
        return out

    def drop(self, ids):
        ids = set(ids)
        for i in ids:
            for c in self.n[i]["children"]:
                if c in self.n and c not in ids:
                    self.n[c]["parent"] = None
            p = self.n[i]["parent"]
            if p is not None and p not in ids:
                self.n[p]["children"].remove(i)
        for i in ids:
            del self.n[i]
        self.v["wirings"] = [w for w in self.v["wirings"] if w[0] not in ids and w[2] not in ids]


def node_from_msg(m, given_only=False):
    return dict(cls=m.node_class, name=m.name, children=[], parent=None, max=None,
                inputs={i.key: [bool(i.type.is_static), i.serialized_value if i.type.is_static else ""] for i in m.inputs})


def apply(view, srv, req, resp, after=None):
    """The tree after a successful request. after: the real tree afterwards, consulted only where the documentation leaves a
    choice (which optional wirings could be kept, defaults of inputs that the request did not mention)."""
    t = Tree(view)
    n = t.n
    loose = {}                    # node id -> input keys that the request fixed
    if srv in ("add_node", "add_node_at_index"):
        i = resp.node_id
        if i in n:
            raise Inapplicable("the new node has the id of an existing node")
        n[i] = node_from_msg(req.node)
        loose[i] = True
        for c in req.node.child_ids:
            if t.need(c)["parent"] is not None:
                raise Inapplicable("a child already had a parent")
        if req.parent_node_id != NIL:
            t.need(req.parent_node_id)
            t.insert(req.parent_node_id, i, getattr(req, "new_child_index", None))
        for c in req.node.child_ids:
            t.insert(i, c, None)
    elif srv == "remove_node":
        t.need(req.node_id)
        t.drop(t.below(req.node_id) if req.remove_children else [req.node_id])
    elif srv == "morph_node":
        o = t.need(req.node_id)
        x = node_from_msg(req.new_node)
        x["children"], x["parent"] = o["children"], o["parent"]
        n[req.node_id] = x
        loose[req.node_id] = True
        wirings_of(t, req.node_id, after)
    elif srv == "set_options":
        o = t.need(req.node_id)
        for io in req.inputs:
            o["inputs"][io.key] = [bool(io.type.is_static), io.serialized_value if io.type.is_static else ""]
        if req.rename_node:
            o["name"] = req.new_name
        loose[req.node_id] = {io.key for io in req.inputs} | ({k for k in o["inputs"] if not k.startswith("extra")})
        wirings_of(t, req.node_id, after)
    elif srv == "move_node":
        t.need(req.node_id)
        if req.parent_node_id == NIL:
            t.detach(req.node_id)
        else:
            t.need(req.parent_node_id)
            if req.parent_node_id in t.below(req.node_id):
                raise Inapplicable("moved below itself")
            t.detach(req.node_id)
            t.insert(req.parent_node_id, req.node_id, req.new_child_index)
    elif srv == "replace_node":
        old, new = req.old_node_id, req.new_node_id
        o, x = t.need(old), t.need(new)
        if old == new:
            raise Inapplicable("replaced by itself")
        p = o["parent"]
        if p is not None and p in t.below(new):
            raise Inapplicable("replaced by its own ancestor")
        if new in t.below(old) and x["parent"] != old:
            raise Inapplicable("replaced by an inner descendant")
        for c in list(o["children"]):
            t.detach(c)
            if c != new:
                t.insert(new, c, None)
        if p is not None:
            t.detach(new)
            pos = n[p]["children"].index(old)
            t.insert(p, new, pos)
        t.drop([old])
    elif srv == "wire_data":
        for w in req.wirings:
            k = wkey(w)
            ok = after is not None and k in after["wirings"]
            if req.ignore_failure and not ok:
                continue
            if k in t.v["wirings"]:
                if not req.ignore_failure:
                    raise Inapplicable("wiring already existed")
                continue
            if k[0] not in n or k[2] not in n:
                if not req.ignore_failure:
                    raise Inapplicable("wiring of a missing node")
                continue
            t.v["wirings"].append(k)
    elif srv == "unwire_data":
        for w in req.wirings:
            k = wkey(w)
            if k in t.v["wirings"]:
                t.v["wirings"].remove(k)
            elif not req.ignore_failure:
                raise Inapplicable("wiring did not exist")
    elif srv == "clear":
        t.v["nodes"], t.v["wirings"], t.v["name"] = {}, [], "UNKNOWN TREE"
    elif srv == "reload":
        if sum(1 for x in n.values() if x["parent"] is None) == 1:
            pass
    elif srv == "change_tree_name":
        t.v["name"] = req.name
    elif srv == "load_tree":
        t.v = from_msg(req.tree)
        for i in t.v["nodes"]:
            loose[i] = True
    elif srv == "load_tree_from_path":
        t.v = after
    else:
        raise KeyError(srv)
    relax(t.v, loose, after)
    for x in t.v["nodes"].values():
        x["name"] = x["name"] or x["cls"]          # nodes without a name are called like their class
    return t.v


def wirings_of(t, i, after):
    """Wirings of a rebuilt node are kept as far as they still fit."""
    if after is None:
        return
    keep = []
    for w in t.v["wirings"]:
        if i in (w[0], w[2]) and w not in after["wirings"]:
            outs = after["nodes"].get(w[0], {}).get("outs", ())
            ins = after["nodes"].get(w[2], {}).get("inputs", ())
            if not (w[1] in outs and w[3] in ins and w[1] == "out" and w[3] == "inp" and not ins["inp"][0]):
                continue                      # (only wirings between these two are certain to still fit)
        keep.append(w)
    t.v["wirings"] = keep


def relax(v, loose, after):
    """Inputs the request did not fix may have any value (class defaults, generated inputs)."""
    if after is None:
        return
    for i, keys in loose.items():
        a = after["nodes"].get(i)
        if a is None or i not in v["nodes"]:
            continue
        mine = v["nodes"][i]["inputs"]
        out = {}
        for k, x in a["inputs"].items():
            if k in mine and (keys is True or k in keys):
                out[k] = mine[k]
            else:
                out[k] = x
        for k in mine:
            if k not in out and not k.startswith("extra"):
                out[k] = mine[k]
        v["nodes"][i]["inputs"] = out
        # an unset value of a static input may be reported as default
    return


def wellformed(v):
    """-> list of what is wrong with this tree."""
    bad = []
    n = v["nodes"]
    seen = {}
    for i, x in n.items():
        if x.get("own", i) != i:
            bad.append(f"node {x['name']} is registered under another id")
        if not x.get("same", True):
            bad.append(f"node {x['name']} has a child or parent that is not the one in the tree")
        if len(set(x["children"])) != len(x["children"]):
            bad.append(f"node {x['name']} has the same child twice")
        for c in x["children"]:
            if c not in n:
                bad.append(f"node {x['name']} has a child that is not in the tree")
                continue
            if c in seen:
                bad.append(f"node {n[c]['name']} has the parents {n[seen[c]]['name']} and {x['name']}")
            seen[c] = i
            if n[c]["parent"] != i:
                bad.append(f"node {n[c]['name']} does not know its parent {x['name']}")
        if x["max"] is not None and x["max"] >= 0 and len(x["children"]) > x["max"]:
            bad.append(f"node {x['name']} has {len(x['children'])} children, {x['max']} allowed")
        if x["parent"] is not None and (x["parent"] not in n or i not in n[x["parent"]]["children"]):
            bad.append(f"node {x['name']} has a parent that does not list it")
    for i in n:
        slow, k = i, 0
        while n.get(slow, {}).get("parent") is not None:
            slow = n[slow]["parent"]
            k += 1
            if k > len(n):
                bad.append(f"node {n[i]['name']} is in or below a cycle")
                break
    w = v["wirings"]
    if len(set(w)) != len(w):
        bad.append("a wiring is registered twice")
    for a, ak, b, bk in w:
        if a not in n or b not in n:
            bad.append(f"a wiring refers to a node that is not in the tree ({ak}>{bk})")
        else:
            if "outs" in n[a] and ak not in n[a]["outs"]:
                bad.append(f"a wiring refers to the output {ak}, which {n[a]['name']} does not have")
            if bk not in n[b]["inputs"]:
                bad.append(f"a wiring refers to the input {bk}, which {n[b]['name']} does not have")
    return bad
