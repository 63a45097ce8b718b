"""Instrumented behaviour-tree nodes, written against the public node API only."""
from ros_bt_py.data_types import (BoolType, DictType, FloatType, IntType, ListType, PathType, RosActionName, RosServiceName, RosTopicName,
                                  StringType)
from ros_bt_py.exceptions import BehaviorTreeException
from ros_bt_py.helpers import BTNodeState
from ros_bt_py.node import Leaf, Node, define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.vendor.result import Err, Ok
from ros_bt_py_interfaces.msg import UtilityBounds

from . import kernel, ros

ST = {"S": BTNodeState.SUCCEEDED, "F": BTNodeState.FAILED, "R": BTNodeState.RUNNING, "I": BTNodeState.IDLE,
      "A": BTNodeState.ASSIGNED, "U": BTNodeState.UNASSIGNED}


I64 = dict(min_value=-(2 ** 63), max_value=2 ** 63 - 1)


class SimFault(RuntimeError):
    pass


def _act(node, op, default):
    """Consult the scenario for what this operation does. Script entries: 'S','F','R','ERR','EXC' or
    {"r": entry, "d": virtual duration ns, "out": {...}}"""
    w = ros.W
    if w is None or kernel.current() is None:
        return Ok(default)
    key = f"{node.name}.{op}"
    n = w.leaf_n[key]
    w.leaf_n[key] += 1
    sc = w.leaf.get(node.name, {}).get(op)
    e = None
    if sc:
        if isinstance(sc, dict):
            lst, cyc = sc["seq"], sc.get("cycle", True)
        else:
            lst, cyc = sc, True
        if n < len(lst):
            e = lst[n]
        elif cyc and lst:
            e = lst[n % len(lst)]
    for f in w.sc.get("node_faults", []):
        if f["node"] == node.name and f["op"] == op and f["nth"] == n:
            e = f["do"]
            w.faults["node_" + (e if isinstance(e, str) else e["r"]).lower()] += 1
    d = 0
    out = {}
    if isinstance(e, dict):
        d, out, e = e.get("d", 0), e.get("out", {}), e.get("r")
    w.k.rec("leaf", node.name, op, n, e)
    if hasattr(w, "on_leaf"):
        w.observe([w.on_leaf], node, op, n, e)
    for k_, v in out.items():
        if isinstance(v, list) and v and v[0] == "push":
            own = node.__dict__.setdefault("_own", {}).setdefault(k_, [])
            own.extend(v[1:])
            v = own
        elif isinstance(v, dict) and "+" in v:
            own = node.__dict__.setdefault("_own", {}).setdefault(k_, {})
            own.update(v["+"])
            v = own
        elif v == "copy":
            v = node.inputs.get_value(k_[2:]).unwrap_or(None)
        r = node.outputs.set_value(k_, v)
        if r.is_ok() and hasattr(w, "on_output"):
            w.observe([w.on_output], node, op, k_, v)
    if d:
        w.k.sleep(d)
    if e == "ERR":
        return Err(BehaviorTreeException(f"injected error in {node.name}.{op}"))
    if e == "EXC":
        raise SimFault(f"injected exception in {node.name}.{op}")
    if e == "KEY":
        raise KeyError(node.name)
    if e is None:
        return Ok(default)
    return Ok(ST[e])


class _Script:
    def _do_setup(self):
        return _act(self, "setup", BTNodeState.IDLE)

    def _do_tick(self):
        return _act(self, "tick", BTNodeState.SUCCEEDED)

    def _do_untick(self):
        return _act(self, "untick", BTNodeState.IDLE)

    def _do_reset(self):
        return _act(self, "reset", BTNodeState.IDLE)

    def _do_shutdown(self):
        return _act(self, "shutdown", BTNodeState.SHUTDOWN)


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class SimLeaf(_Script, Leaf):
    """Leaf whose behaviour is scripted by the scenario."""

    def _do_calculate_utility(self):
        w = ros.W
        ok = True if w is None else self.name not in w.sc.get("cannot_execute", ())
        return Ok(UtilityBounds(can_execute=ok))


@define_bt_node(NodeConfig(inputs={"opt": IntType(allow_dynamic=False, value=0),
                                   "label": StringType(allow_dynamic=False, value="x")},
                           outputs={"out": IntType(allow_static=False, **I64), "text": StringType(allow_static=False),
                                    "flag": BoolType(allow_static=False)},
                           max_children=0))
class SimSource(_Script, Leaf):
    """Scripted leaf with options and outputs."""


@define_bt_node(NodeConfig(inputs={"inp": IntType(), "text": StringType(value="")}, outputs={"out": IntType(allow_static=False, **I64)},
                           max_children=0))
class SimSink(_Script, Leaf):
    """Scripted leaf with wirable inputs; records what it sees at each tick."""

    def _do_tick(self):
        w = ros.W
        if w is not None and hasattr(w, "on_sink"):
            w.observe([w.on_sink], self)
        return super()._do_tick()


def _data():
    return {"num": IntType(value=0, **I64), "text": StringType(value=""), "items": ListType(element_type=IntType(**I64)),
            "map": DictType(element_type=IntType(**I64)), "flag": BoolType(value=False)}


@define_bt_node(NodeConfig(inputs=_data(), outputs={"o_" + k: v for k, v in _data().items()}, max_children=0))
class SimData(_Script, Leaf):
    """Scripted leaf with inputs and outputs of several types. It keeps and changes its own list and map objects."""


@define_bt_node(NodeConfig(inputs={}, outputs={
    "names": ListType(element_type=StringType(), allow_static=False), "index": IntType(min_value=0, max_value=2 ** 63 - 1, allow_static=False),
    "path": PathType(allow_static=False), "real": FloatType(allow_static=False)}, max_children=0))
class SimMore(_Script, Leaf):
    """Scripted leaf with outputs of further types."""


@define_bt_node(NodeConfig(inputs={}, outputs={
    "topic": RosTopicName(interface_id=1, allow_static=False), "service": RosServiceName(interface_id=1, allow_static=False),
    "action": RosActionName(interface_id=1, allow_static=False), "depth": IntType(min_value=0, allow_static=False),
    "order": IntType(min_value=-2**31, max_value=2**31 - 1, allow_static=False), "target": StringType(allow_static=False), "flag": BoolType(allow_static=False)}, max_children=0))
class SimNames(_Script, Leaf):
    """Scripted leaf giving interface names."""


@define_bt_node(NodeConfig(inputs={"opt": IntType(allow_dynamic=False, value=0)}, outputs={"out": IntType(allow_static=False, **I64)},
                           max_children=0))
class SimPicky(_Script, Leaf):
    """Refuses some option values at construction (opt < 0: error, opt > 100: exception)."""

    def add_extra_inputs(self):
        from ros_bt_py.exceptions import NodeConfigError
        v = self.inputs.get_value_as("opt", int).unwrap_or(0)
        if v < 0:
            return Err(NodeConfigError("negative option"))
        if v > 100:
            raise NodeConfigError("option too large")
        return Ok({f"extra{i}": IntType() for i in range(min(v, 3))})


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=2))
class SimPair(Node):
    """Flow control with at most two children: ticks all, succeeds if the last one does."""

    def _do_setup(self):
        mine = _act(self, "setup", BTNodeState.IDLE)
        for c in self.children if mine.is_ok() else ():
            r = c.setup()
            if r.is_err():
                return r
        return mine

    def _do_tick(self):
        res = Ok(BTNodeState.SUCCEEDED)
        for c in self.children:
            res = c.tick()
            if res.is_err():
                return res
        return res

    def _do_untick(self):
        for c in self.children:
            r = c.untick()
            if r.is_err():
                return r
        return _act(self, "untick", BTNodeState.IDLE)

    def _do_reset(self):
        for c in self.children:
            r = c.reset()
            if r.is_err():
                return r
        return _act(self, "reset", BTNodeState.IDLE)

    def _do_shutdown(self):
        return _act(self, "shutdown", BTNodeState.SHUTDOWN)


