from ros_bt_py.data_types import IntType
from ros_bt_py.node import define_bt_node
from ros_bt_py.node_config import NodeConfig
from btsim.late.common import Late


@define_bt_node(NodeConfig(inputs={"number": IntType()}, outputs={"twice": IntType()}, max_children=0))
class LateAttr(Late):
    """LateAttr is loaded late."""


LateAttr.nothing_like_this
