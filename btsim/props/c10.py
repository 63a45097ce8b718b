"""C10 A successful edit has exactly the requested effect."""
from .. import editmodel
from ..editmodel import NIL, Inapplicable
from .c08 import EditProp


class C10(EditProp):
    id = "C10"
    quick_total = 200
    nvariants = 0
    nops = (4, 14)

    def check(self, w, sc):
        if self.died(w):
            return
        for c in self.edits(w):
            if not c.alone:
                continue
            if not c.resp.success:
                if must_succeed(c):
                    w.violation("refused_valid", f"{c.srv} {c.op} is valid but was refused: {c.resp.error_message}")
                    return
                continue
            if c.op and c.op.get("muts_done"):
                continue
            try:
                want = editmodel.apply(c.before, c.srv, c.req, c.resp, c.after)
            except Inapplicable as e:
                w.violation("accepted_invalid", f"{c.srv} {c.op} cannot have succeeded: {e}")
                return
            d = editmodel.diff(editmodel.comparable(want), editmodel.comparable(c.after))
            if d and (c.op or {}).get("garbage") is not None and d.startswith("inputs of"):
                if c.op["garbage"] != "":              # (an empty text means: no value)
                    w.violation("invalid_value", f"{c.srv} with the invalid value {c.op['garbage']!r} reported success: {d}")
            elif d:
                w.violation("wrong_effect", f"{c.srv} {c.op} reported success, but (expected vs found) {d}")
                return


def room(v, p, i=None):
    n = v["nodes"].get(p)
    return n is not None and (n["max"] is None or len(n["children"]) < n["max"] or (i is not None and i in n["children"]))


def below(v, i):
    out, todo = set(), [i]
    while todo:
        x = todo.pop()
        out.add(x)
        todo += v["nodes"][x]["children"]
    return out


def picky(msg):
    for i in msg.inputs:
        if i.key == "opt" and i.serialized_value.lstrip("-").isdigit() and not 0 <= int(i.serialized_value) <= 100:
            return True
    return False


def must_succeed(c):
    """Requests that are valid beyond doubt."""
    v, r, o = c.before, c.req, c.op or {}
    if v["state"] != "EDITABLE" or o.get("badclass") or o.get("garbage") is not None or o.get("muts_done"):
        return False
    n = v["nodes"]
    if c.srv in ("add_node", "add_node_at_index"):
        kids = list(r.node.child_ids)
        if picky(r.node) or any(k not in n or n[k]["parent"] is not None for k in kids) or len(set(kids)) != len(kids):
            return False
        if kids and (r.node.max_children >= 0 and len(kids) > r.node.max_children or r.parent_node_id != NIL and
                     any(r.parent_node_id in below(v, k) for k in kids)):
            return False
        return r.parent_node_id == NIL or room(v, r.parent_node_id)
    if c.srv == "remove_node":
        return r.node_id in n
    if c.srv == "change_tree_name" or c.srv == "clear":
        return True
    if c.srv == "move_node":
        if r.node_id not in n:
            return False
        if r.parent_node_id == NIL:
            return True
        return r.parent_node_id in n and room(v, r.parent_node_id, r.node_id) and r.parent_node_id not in below(v, r.node_id)
    if c.srv == "morph_node":
        mc = r.new_node.max_children
        return r.node_id in n and not picky(r.new_node) and (mc < 0 or len(n[r.node_id]["children"]) <= mc)
    if c.srv == "set_options":
        # (an option that other inputs depend on can only be changed by morphing, see DESIGN.md)
        return r.node_id in n and n[r.node_id]["cls"] == o.get("c") != "SimPicky"
    if c.srv == "wire_data":
        seen = set()
        for x in r.wirings:
            k = editmodel.wkey(x)
            if k[0] not in n or k[2] not in n or k[1] != "out" or k[3] != "inp" or k in v["wirings"] or k in seen:
                return False
            if n[k[0]]["cls"] not in ("SimSource", "SimSink", "SimPicky") or n[k[2]]["cls"] != "SimSink" or \
                    n[k[2]]["inputs"]["inp"][0]:
                return False
            seen.add(k)
        return True
    if c.srv == "unwire_data":
        ks = [editmodel.wkey(x) for x in r.wirings]
        return len(set(ks)) == len(ks) and all(k in v["wirings"] for k in ks)
    if c.srv == "replace_node":
        a, b = r.old_node_id, r.new_node_id
        if a not in n or b not in n or a == b:
            return False
        x = n[b]
        kids = [k for k in n[a]["children"] if k != b]
        if x["max"] is not None and len(x["children"]) + len(kids) > x["max"] or \
                x["max"] is not None and len(n[a]["children"]) > x["max"]:
            return False
        return n[b]["parent"] == n[a]["parent"] and n[a]["parent"] is not None
    return c.srv == "load_tree"


PROP = C10()
