"""Building request messages from compact scenario descriptions."""
import copy
import json

from . import ros
from . import world as wmod
from .world import DOCS, uid


def place(s):
    """Paths in scenarios are below /disk, which is the run's scratch directory."""
    return s.replace("/disk/", ros.W.scratch + "/") if "/disk/" in s and ros.W is not None else s


def node_msg(cls, name, nid="", inputs=None, child_ids=(), dynamic=(), extra_io=None):
    """NodeStructure for a documented node class. inputs: {key: python value} set statically; dynamic: keys made
    wirable; the rest keep the class default."""
    from ros_bt_py_interfaces.msg import NodeIO, NodeStructure
    d = DOCS[cls]
    ios = []
    inputs = dict(inputs or {})
    for io in d.inputs:
        io = copy.deepcopy(io)
        if io.key in dynamic:
            io.type.is_static = False
            io.serialized_value = ""
        elif io.key in inputs:
            io.type.is_static = True
            io.serialized_value = place(json.dumps(inputs.pop(io.key)))
        elif not io.serialized_value:
            io.type.is_static = False if io.type.allow_dynamic else io.type.is_static
            if io.type.is_static:
                continue
        ios.append(io)
    for key, (typ, val) in (extra_io or {}).items():
        x = NodeIO(key=key, type=typ, serialized_value=val)
        ios.append(x)
    return NodeStructure(module=d.module, node_class=cls, name=name, node_id=nid, child_ids=list(child_ids), inputs=ios,
                         max_children=d.max_children)


def flatten(spec, out=None, ids=None):
    """spec: {"c": class, "n": name, "i": {...}, "dyn": [...], "ch": [...]} -> list of NodeStructure, name->id map"""
    if out is None:
        out, ids = [], {}
    nid = uid(len(ids) + 1)
    ids[spec["n"]] = nid
    idx = len(out)
    out.append(None)
    ch = []
    for c in spec.get("ch", []):
        flatten(c, out, ids)
        ch.append(ids[c["n"]])
    extra = {}
    for key, (cls, like) in spec.get("x", {}).items():      # wirable inputs the class adds at run time
        typ = copy.deepcopy(next(io.type for io in [*DOCS[cls].inputs, *DOCS[cls].outputs] if io.key == like))
        typ.is_static = False
        typ.allow_static = True
        extra[key] = (typ, "")
    out[idx] = node_msg(spec["c"], spec["n"], nid, spec.get("i"), ch, spec.get("dyn", ()), extra)
    return out, ids


def tree_msg(spec, name="tree", wirings=(), rate=10.0, public_in=(), public_out=()):
    from ros_bt_py_interfaces.msg import NodeDataLocation, TreeStructure, Wiring
    nodes, ids = flatten(spec) if spec else ([], {})
    t = TreeStructure(name=name, nodes=nodes, tick_frequency_hz=float(rate))
    if nodes:
        t.root_id = nodes[0].node_id
    t.data_wirings = [Wiring(source=NodeDataLocation(node_id=ids[a], data_key=ak),
                             target=NodeDataLocation(node_id=ids[b], data_key=bk)) for a, ak, b, bk in wirings]
    t.public_inputs = [NodeDataLocation(node_id=ids[a], data_key=k) for a, k in public_in]
    t.public_outputs = [NodeDataLocation(node_id=ids[a], data_key=k) for a, k in public_out]
    return t, ids


def names(spec):
    yield spec
    for c in spec.get("ch", []):
        yield from names(c)


def control(w, cmd, rate=0.0):
    from ros_bt_py_interfaces.srv import ControlTreeExecution as C
    return C.Request(command=wmod.CMD.get(cmd, cmd) if isinstance(cmd, str) else cmd, tick_frequency_hz=float(rate))


def load_req(w, spec, **kw):
    from ros_bt_py_interfaces.srv import LoadTree
    t, ids = tree_msg(spec, **kw)
    w.refs.update(ids)
    return LoadTree.Request(tree=t)
