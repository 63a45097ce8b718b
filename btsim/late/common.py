"""What the late node classes share."""
from ros_bt_py.helpers import BTNodeState
from ros_bt_py.node import Leaf
from ros_bt_py.vendor.result import Ok


class Late(Leaf):
    def _do_setup(self):
        return Ok(BTNodeState.IDLE)

    def _do_tick(self):
        return Ok(BTNodeState.SUCCEEDED)

    def _do_shutdown(self):
        return Ok(BTNodeState.SHUTDOWN)

    def _do_reset(self):
        return Ok(BTNodeState.IDLE)

    def _do_untick(self):
        return Ok(BTNodeState.IDLE)
