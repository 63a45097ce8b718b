From b17be15d80a26fdc7622c14d5e6904f95936982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 01/51] fix: run execution commands one at a time and never
 together with edits

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 64 +++++++++++++++++++++---
 1 file changed, 56 insertions(+), 8 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 609a4fb..454b167 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -113,13 +113,53 @@ def is_edit_service(func):
                 f"You need to shut down the tree to enable editing."
             )
             return response
-        try:
-            with self._edit_lock:
+        with self._edit_lock:
+            # An execution command may have arrived while we waited for the lock.
+            if self.state != TreeState.EDITABLE or self._command_running:
+                response.success = False
+                response.error_message = (
+                    f"Cannot edit tree in state {self.state} "
+                    f"while an execution command is being processed."
+                )
+                return response
+            try:
                 return func(self, request, response, **kwds)
+            finally:
+                # TODO Find a way to check if we're the outermost level
+                #   to reduce repeating publish calls
+                self.publish_structure()
+
+    return service_handler
+
+
+def is_execution_command(func):
+    """
+    Decorate execution command handlers so that they run one at a time.
+
+    The handlers are called concurrently, but they (and the tick thread they control)
+    must never operate on the nodes at the same time. A command arriving while another
+    one is being executed is refused instead of waiting for its turn: Waiting commands
+    would occupy all executor threads, which the tick thread relies on to be woken up.
+
+    An edit in progress is finished first, and no edits can start until the command
+    has been processed.
+    """
+
+    @wraps(func)
+    def service_handler(self: "TreeExecManager", request: Any, response: Any, **kwds):
+        with self._edit_lock:
+            if self._command_running:
+                response.success = False
+                response.error_message = (
+                    "Another execution command is still being processed, aborting"
+                )
+                response.tree_state = self.state
+                return response
+            self._command_running = True
+        try:
+            return func(self, request, response, **kwds)
         finally:
-            # TODO Find a way to check if we're the outermost level
-            #   to reduce repeating publish calls
-            self.publish_structure()
+            self._command_running = False
 
     return service_handler
 
@@ -239,6 +279,9 @@ class TreeExecManager:
     subtree_manager: SubtreeManager
     debug_manager: DebugManager
 
+    # Set while an execution command is being processed
+    _command_running: bool = False
+
     def __init__(
         self,
         ros_node: rclpy.node.Node,
@@ -1153,6 +1196,7 @@ class TreeExecManager:
             response.tree_state = self.state
             return response
 
+    @is_execution_command
     @typechecked
     def control_execution(  # noqa: C901
         self,
@@ -1171,13 +1215,17 @@ class TreeExecManager:
         """
         response.success = False
         if self._tick_thread is not None:
-            is_idle = self.state == TreeState.IDLE
-            if is_idle and self._tick_thread.is_alive():
+            is_finishing = self.state not in (
+                TreeState.TICKING,
+                TreeState.STOP_REQUESTED,
+            )
+            if is_finishing and self._tick_thread.is_alive():
                 self._tick_thread.join(0.5)
                 if self._tick_thread.is_alive():
                     response.success = False
                     response.error_message = (
-                        "Tried to join tick thread with Tree state IDLE, but failed!"
+                        f"Tried to join tick thread with Tree state {self.state}, "
+                        "but failed!"
                     )
                     self.publish_state()
                     return response
-- 
2.43.0


From f963b698ed48fac4f5b73215d6b5d8f718570613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 02/51] fix: never read the tree during an edit or publish
 outdated messages after newer ones

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py |  8 +++-
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 60 ++++++++++++++++--------
 2 files changed, 47 insertions(+), 21 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 35b67db..b08447d 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -30,7 +30,11 @@ import uuid
 from copy import deepcopy
 from typing import Any
 
-from ros_bt_py.tree_exec_manager import TreeExecManager, is_edit_service
+from ros_bt_py.tree_exec_manager import (
+    TreeExecManager,
+    is_edit_service,
+    is_query_service,
+)
 from ros_bt_py.vendor.result import Err, Ok
 
 from typeguard import typechecked
@@ -983,6 +987,7 @@ class TreeEditManager(TreeExecManager):
         response.success = True
         return response
 
+    @is_query_service
     @typechecked
     def get_subtree(
         self, request: GetSubtree.Request, response: GetSubtree.Response
@@ -1011,6 +1016,7 @@ class TreeEditManager(TreeExecManager):
         response.success = True
         return response
 
+    @is_query_service
     @typechecked
     def generate_subtree(
         self, request: GenerateSubtree.Request, response: GenerateSubtree.Response
diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 454b167..1f5b781 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -132,6 +132,17 @@ def is_edit_service(func):
     return service_handler
 
 
+def is_query_service(func):
+    """Decorate service handlers that need the tree to not be edited while they run."""
+
+    @wraps(func)
+    def service_handler(self: "TreeExecManager", request: Any, response: Any, **kwds):
+        with self._edit_lock:
+            return func(self, request, response, **kwds)
+
+    return service_handler
+
+
 def is_execution_command(func):
     """
     Decorate execution command handlers so that they run one at a time.
@@ -402,6 +413,9 @@ class TreeExecManager:
         self._children: Dict[uuid.UUID, list[uuid.UUID]] = {}
 
         self._edit_lock = RLock()
+        # Building and publishing a message is one step, otherwise an outdated message
+        # could be published after (and on latched topics, hide) a newer one.
+        self._publish_lock = RLock()
         # Stop the tick thread after a single tick
         self._once: bool = False
         # Stop the tick thread after the tree returns something other than
@@ -582,12 +596,13 @@ class TreeExecManager:
         topic.
         """
         if self.publish_tree_structure:
-            structure_list = TreeStructureList()
-            structure_list.tree_structures = (
-                self.subtree_manager.get_subtree_structures()
-            )
-            structure_list.tree_structures.append(self.structure_to_msg())
-            self.publish_tree_structure(structure_list)
+            with self._publish_lock:
+                structure_list = TreeStructureList()
+                structure_list.tree_structures = (
+                    self.subtree_manager.get_subtree_structures()
+                )
+                structure_list.tree_structures.append(self.structure_to_msg())
+                self.publish_tree_structure(structure_list)
         self.publish_state()
 
     def publish_state(
@@ -600,10 +615,11 @@ class TreeExecManager:
         topic.
         """
         if self.publish_tree_state:
-            state_list = TreeStateList()
-            state_list.tree_states = self.subtree_manager.get_subtree_states()
-            state_list.tree_states.append(self.state_to_msg())
-            self.publish_tree_state(state_list)
+            with self._publish_lock:
+                state_list = TreeStateList()
+                state_list.tree_states = self.subtree_manager.get_subtree_states()
+                state_list.tree_states.append(self.state_to_msg())
+                self.publish_tree_state(state_list)
 
     def publish_data(
         self,
@@ -617,11 +633,13 @@ class TreeExecManager:
         In most cases, you'll want that callback to publish to a ROS
         topic.
         """
-        if self.publish_tree_data and self.enable_publish_data:
-            data_list = TreeDataList()
-            data_list.tree_data = self.subtree_manager.get_subtree_data()
-            data_list.tree_data.append(self.data_to_msg())
-            self.publish_tree_data(data_list)
+        if self.publish_tree_data:
+            with self._publish_lock:
+                if self.enable_publish_data:
+                    data_list = TreeDataList()
+                    data_list.tree_data = self.subtree_manager.get_subtree_data()
+                    data_list.tree_data.append(self.data_to_msg())
+                    self.publish_tree_data(data_list)
         self.publish_state()
 
     @typechecked
@@ -964,6 +982,7 @@ class TreeExecManager:
             self.set_diagnostics_name()
         return response
 
+    @is_query_service
     @typechecked
     def set_publish_subtrees(
         self,
@@ -985,12 +1004,13 @@ class TreeExecManager:
         return response
 
     def set_publish_data(self, request: SetBool.Request, response: SetBool.Response):
-        self.enable_publish_data = request.data
-        self.subtree_manager.set_publish_data(request.data)
+        with self._publish_lock:
+            self.enable_publish_data = request.data
+            self.subtree_manager.set_publish_data(request.data)
 
-        # Clear data after disabling publish
-        if not request.data and self.publish_tree_data:
-            self.publish_tree_data(TreeDataList())
+            # Clear data after disabling publish
+            if not request.data and self.publish_tree_data:
+                self.publish_tree_data(TreeDataList())
 
         response.success = True
         return response
-- 
2.43.0


From b62b7248f3521a1675f9e41c84cc3d8542a05126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 03/51] fix: report the tree as idle only when it is, and never
 lose its final state to a stop request

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 29 +++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 1f5b781..d48e051 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -168,7 +168,9 @@ def is_execution_command(func):
                 return response
             self._command_running = True
         try:
-            return func(self, request, response, **kwds)
+            response = func(self, request, response, **kwds)
+            response.tree_state = self.state
+            return response
         finally:
             self._command_running = False
 
@@ -800,12 +802,12 @@ class TreeExecManager:
                 self.publish_tick_frequency(tick_frequency_msg)
             self.rate.sleep()
 
-        self.state = TreeState.IDLE
-        self.publish_state()
-
         # Ensure all nodes are stopped and not doing anything in
-        # the background.
+        # the background, before reporting that the tree is idle.
         untick_result = root.untick()
+        if untick_result.is_ok():
+            self.state = TreeState.IDLE
+            self.publish_state()
         return untick_result.map(lambda x: None)
 
     ####################
@@ -1037,6 +1039,7 @@ class TreeExecManager:
             self.state = TreeState.EDITABLE
             response.tree_state = self.state
             response.success = True
+            response.error_message = ""
             return response
         root = find_root_result.unwrap()
         if root:
@@ -1052,6 +1055,7 @@ class TreeExecManager:
         self.state = TreeState.EDITABLE
         response.tree_state = self.state
         response.success = True
+        response.error_message = ""
         return response
 
     @typechecked
@@ -1298,8 +1302,12 @@ class TreeExecManager:
             ControlTreeExecution.Request.STOP,
             ControlTreeExecution.Request.SHUTDOWN,
         ]:
-            if tree_state == TreeState.TICKING:
-                self.state = TreeState.STOP_REQUESTED
+            if tree_state in (TreeState.TICKING, TreeState.STOP_REQUESTED):
+                # The tick thread may be finishing on its own right now,
+                # never overwrite its final state.
+                with self._tree_lock:
+                    if self._tree_state.state == TreeState.TICKING:
+                        self._tree_state.state = TreeState.STOP_REQUESTED
                 # Four times the allowed period should be plenty of time to
                 # finish the current tick, if the tree has not stopped by then
                 # we're in deep trouble.
@@ -1356,9 +1364,12 @@ class TreeExecManager:
                     root.untick()
                     state = root.state
                     if state in [BTNodeState.IDLE, BTNodeState.PAUSED]:
+                        self.state = TreeState.IDLE
                         response.tree_state = TreeState.IDLE
                         response.success = True
                     else:
+                        self.state = TreeState.ERROR
+                        self.publish_state()
                         response.tree_state = TreeState.ERROR
                         response.success = False
                         self.get_logger().error(
@@ -1369,13 +1380,15 @@ class TreeExecManager:
                         return response
                 else:
                     self.get_logger().info("Unticking a tree with no nodes.")
+                    self.state = TreeState.IDLE
                     response.tree_state = TreeState.IDLE
                     response.success = True
 
             else:
-                self.get_logger().info(
+                response.error_message = (
                     "Received stop command, but tree was not running"
                 )
+                self.get_logger().info(response.error_message)
 
             self.publish_state()
 
-- 
2.43.0


From cb27f0e02fba414e5722f6d289c16ec9a150dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 04/51] fix: an exception raised by a node puts the tree into
 the error state

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 45 ++++++++++++++++++++----
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index d48e051..d3a3d04 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -171,6 +171,18 @@ def is_execution_command(func):
             response = func(self, request, response, **kwds)
             response.tree_state = self.state
             return response
+        except Exception as ex:
+            # A node raised an exception while being operated on
+            self._last_error = f"{type(ex).__name__}: {ex}"
+            self.get_logger().error(
+                f"Encountered error while executing a command: {self._last_error}"
+            )
+            self.state = TreeState.ERROR
+            self.publish_state()
+            response.success = False
+            response.error_message = self._last_error
+            response.tree_state = self.state
+            return response
         finally:
             self._command_running = False
 
@@ -685,7 +697,11 @@ class TreeExecManager:
 
     def tick_report_exceptions(self) -> None:
         """Wrap :meth:`TreeManager.tick()` and catch *all* errors."""
-        tick_result = self.tick()
+        tick_result: Result[None, BehaviorTreeException]
+        try:
+            tick_result = self.tick()
+        except Exception as ex:
+            tick_result = Err(BehaviorTreeException(f"{type(ex).__name__}: {ex}"))
 
         if tick_result.is_err():
             self.get_logger().error(
@@ -695,6 +711,22 @@ class TreeExecManager:
             self.state = TreeState.ERROR
             self.publish_state()
 
+    @typechecked
+    def _setup_tree(self, root: Node) -> Result[None, BehaviorTreeException]:
+        match self.data_flow_manager.initialize(self.nodes, self.wirings):
+            case Err(e):
+                return Err(BehaviorTreeException(e))
+            case Ok(None):
+                pass
+        match root.setup():
+            case Err(e):
+                return Err(e)
+            case Ok(_):
+                pass
+        if root.state is not BTNodeState.IDLE:
+            return Err(BehaviorTreeException("Tree not in idle state after setup!"))
+        return Ok(None)
+
     @typechecked
     def tick(
         self,
@@ -737,12 +769,11 @@ class TreeExecManager:
         if root.state in (BTNodeState.UNINITIALIZED, BTNodeState.SHUTDOWN):
             # TODO This is a very ugly position to put this,
             #   we should restructure execution actions and commands.
-            self.data_flow_manager.initialize(self.nodes, self.wirings)
-            root.setup()
-            if root.state is not BTNodeState.IDLE:
-                self.state = TreeState.ERROR
-                self.publish_state()
-                return Err(BehaviorTreeException("Tree not in idle state after setup!"))
+            match self._setup_tree(root):
+                case Err(e):
+                    return Err(e)
+                case Ok(None):
+                    pass
 
         while True:
             tick_start_timestamp = self.ros_node.get_clock().now()
-- 
2.43.0


From 665a96dcf83067a1ce47f986d4fc837478c2aa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 05/51] fix: setup-and-shutdown sets up the tree before
 shutting it down

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index d3a3d04..2a68b74 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1314,8 +1314,6 @@ class TreeExecManager:
                 self.get_logger().warn(response.error_message)
                 return response
 
-            if self.subtree_manager:
-                self.subtree_manager.clear_subtrees()
             find_root_result = self.find_root()
             if find_root_result.is_err():
                 response.success = False
@@ -1324,6 +1322,18 @@ class TreeExecManager:
                 self.publish_state()
                 return response
             root = find_root_result.unwrap()
+            if root and root.state in (BTNodeState.UNINITIALIZED, BTNodeState.SHUTDOWN):
+                match self._setup_tree(root):
+                    case Err(e):
+                        self._last_error = str(e)
+                        self.state = TreeState.ERROR
+                        self.publish_state()
+                        response.success = False
+                        response.error_message = f"Failed to setup tree: {e}"
+                        response.tree_state = self.state
+                        return response
+                    case Ok(None):
+                        pass
 
             response.tree_state = tree_state
             # shutdown the tree after the setup and shutdown request
-- 
2.43.0


From 733d50f36b7a4c2929d42793247600327a904982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 06/51] fix: compute tick durations and tick frequency in the
 right units

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 2a68b74..ad57ba9 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -40,6 +40,7 @@ import rclpy
 from rclpy.utilities import ok
 import rclpy.node
 from rclpy.duration import Duration
+from rclpy.time import Time
 
 import yaml
 import yaml.scanner
@@ -775,6 +776,7 @@ class TreeExecManager:
                 case Ok(None):
                     pass
 
+        last_tick_timestamp: Optional[Time] = None
         while True:
             tick_start_timestamp = self.ros_node.get_clock().now()
             if self.state == TreeState.STOP_REQUESTED:
@@ -815,14 +817,18 @@ class TreeExecManager:
             # We know that Time - Time = Duration
             tick_rate = self.tick_frequency_hz
 
-            if (1 / tick_rate) > (duration.nanoseconds * 1e9):
+            if duration.nanoseconds * 1e-9 > (1 / tick_rate):
                 self.get_logger().warn(
                     "Tick took longer than set period, cannot tick at "
                     f"{self.tick_frequency_hz:.2f} Hz"
                 )
 
-            self.tick_sliding_window.pop(0)
-            self.tick_sliding_window.append(duration.nanoseconds * 1e9)
+            if last_tick_timestamp is not None:
+                period: Duration = tick_start_timestamp - last_tick_timestamp  # type: ignore
+                if period.nanoseconds > 0:
+                    self.tick_sliding_window.pop(0)
+                    self.tick_sliding_window.append(1e9 / period.nanoseconds)
+            last_tick_timestamp = tick_start_timestamp
             tick_frequency_avg = sum(self.tick_sliding_window) / len(
                 self.tick_sliding_window
             )
-- 
2.43.0


From 684ba3cf3c7721ab4639f74165f64426e6e3f3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 07/51] fix: create the tick rate only while ticking and
 release it afterwards

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index ad57ba9..8f9b08a 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -41,6 +41,7 @@ from rclpy.utilities import ok
 import rclpy.node
 from rclpy.duration import Duration
 from rclpy.time import Time
+from rclpy.timer import Rate
 
 import yaml
 import yaml.scanner
@@ -419,7 +420,8 @@ class TreeExecManager:
         self.state = TreeState.EDITABLE
         self.tick_frequency_hz = tick_frequency_hz
 
-        self.rate = self.ros_node.create_rate(self.tick_frequency_hz)
+        # Only exists while the tree is ticking
+        self.rate: Optional[Rate] = None
 
         self.tick_sliding_window = [self.tick_frequency_hz] * 10
 
@@ -703,6 +705,10 @@ class TreeExecManager:
             tick_result = self.tick()
         except Exception as ex:
             tick_result = Err(BehaviorTreeException(f"{type(ex).__name__}: {ex}"))
+        finally:
+            if self.rate is not None:
+                self.ros_node.destroy_rate(self.rate)
+                self.rate = None
 
         if tick_result.is_err():
             self.get_logger().error(
@@ -776,6 +782,8 @@ class TreeExecManager:
                 case Ok(None):
                     pass
 
+        if not self._once:
+            self.rate = self.ros_node.create_rate(self.tick_frequency_hz)
         last_tick_timestamp: Optional[Time] = None
         while True:
             tick_start_timestamp = self.ros_node.get_clock().now()
@@ -1006,8 +1014,6 @@ class TreeExecManager:
         self._tree_structure.public_inputs = list(tree.public_inputs)
         self._tree_structure.public_outputs = list(tree.public_outputs)
 
-        self.rate = self.ros_node.create_rate(frequency=self.tick_frequency_hz)
-
         # Clear state and data
         self._tree_state.node_states = []
         self._tree_data.wiring_data = []
@@ -1207,7 +1213,6 @@ class TreeExecManager:
             # Use provided tick frequency, if any
             if request.tick_frequency_hz != 0:
                 self.tick_frequency_hz = request.tick_frequency_hz
-                self.rate = self.ros_node.create_rate(frequency=self.tick_frequency_hz)
             self._tick_thread.start()
             response.success = True
             response.tree_state = TreeState.TICKING
-- 
2.43.0


From cc27d4dc50e888540f24c576f20d6a2618317a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 08/51] fix: refuse tick frequencies that are not positive
 numbers

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 8f9b08a..b7de2be 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -27,6 +27,7 @@
 # POSSIBILITY OF SUCH DAMAGE.
 
 from importlib import metadata
+from math import isfinite
 import os
 import uuid
 from functools import wraps
@@ -518,7 +519,7 @@ class TreeExecManager:
     @typechecked
     def tick_frequency_hz(self, frequency: float) -> None:
         with self._tree_lock:
-            if frequency == 0.0:
+            if not (isfinite(frequency) and frequency > 0.0):
                 self.get_logger().warn(
                     f"Tick frequency of {frequency} is invalid. Setting to 10.0"
                 )
-- 
2.43.0


From 26add03cb58ef7f32004680cf3365bd43a18d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 09/51] fix: a failed edit leaves the tree as it was, and
 reloading does not empty it

---
 ros_bt_py/ros_bt_py/subtree_manager.py   | 19 ++++++++-
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 53 +++++++++++++++++++++---
 2 files changed, 66 insertions(+), 6 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/subtree_manager.py b/ros_bt_py/ros_bt_py/subtree_manager.py
index 32f2ff4..e9af930 100644
--- a/ros_bt_py/ros_bt_py/subtree_manager.py
+++ b/ros_bt_py/ros_bt_py/subtree_manager.py
@@ -28,7 +28,7 @@
 
 from copy import deepcopy
 from threading import Lock
-from typing import Any, Dict
+from typing import Any, Callable, Dict
 import uuid
 
 from typeguard import typechecked
@@ -130,6 +130,23 @@ class SubtreeManager(object):
         with self._lock:
             self.nested_subtree_managers[node_id] = subtree_manager
 
+    def snapshot(self) -> Callable[[], None]:
+        """Remember the known subtrees, and return a function to restore them."""
+        with self._lock:
+            structures = dict(self.subtree_structures)
+            states = dict(self.subtree_states)
+            data = dict(self.subtree_data)
+            managers = dict(self.nested_subtree_managers)
+
+        def restore() -> None:
+            with self._lock:
+                self.subtree_structures = structures
+                self.subtree_states = states
+                self.subtree_data = data
+                self.nested_subtree_managers = managers
+
+        return restore
+
     def clear_subtrees(self) -> None:
         with self._lock:
             self.subtree_structures.clear()
diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index b7de2be..63236bd 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -26,6 +26,7 @@
 # ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 # POSSIBILITY OF SUCH DAMAGE.
 
+from copy import copy, deepcopy
 from importlib import metadata
 from math import isfinite
 import os
@@ -105,6 +106,8 @@ def is_edit_service(func):
     calls cannot interweave. The lock used to ensure this is a
     `threading.RLock`, which means the service handlers *can* call
     each other if need be.
+
+    An edit that fails, at whichever step, leaves the tree as it was before.
     """
 
     @wraps(func)
@@ -125,12 +128,25 @@ def is_edit_service(func):
                     f"while an execution command is being processed."
                 )
                 return response
-            try:
+            if self._edit_active:
+                # Called by another edit service handler, which takes care of the rest
                 return func(self, request, response, **kwds)
+            self._edit_active = True
+            restore_tree = self._snapshot_tree()
+            try:
+                response = func(self, request, response, **kwds)
+            except Exception as ex:
+                response.success = False
+                response.error_message = f"{type(ex).__name__}: {ex}"
+                self.get_logger().error(
+                    f"Encountered error while editing the tree: {response.error_message}"
+                )
             finally:
-                # TODO Find a way to check if we're the outermost level
-                #   to reduce repeating publish calls
-                self.publish_structure()
+                self._edit_active = False
+            if not response.success:
+                restore_tree()
+            self.publish_structure()
+            return response
 
     return service_handler
 
@@ -309,6 +325,8 @@ class TreeExecManager:
 
     # Set while an execution command is being processed
     _command_running: bool = False
+    # Set while an edit is being processed
+    _edit_active: bool = False
 
     def __init__(
         self,
@@ -546,6 +564,31 @@ class TreeExecManager:
             for node_id, node in self.nodes.items()
         }
 
+    def _snapshot_tree(self) -> Callable[[], None]:
+        """Remember the tree as it is now, and return a function to restore it."""
+        nodes = dict(self.nodes)
+        links = {
+            node_id: (node.parent, list(node.children))
+            for node_id, node in self.nodes.items()
+        }
+        structure = copy(self._tree_structure)
+        wirings = list(self.wirings)
+        restore_subtrees = self.subtree_manager.snapshot()
+
+        def restore() -> None:
+            self.nodes = nodes
+            for node_id, (parent, children) in links.items():
+                nodes[node_id].parent = parent
+                nodes[node_id].children = children
+            self._sync_children()
+            with self._tree_lock:
+                self._tree_structure = structure
+                self.wirings = wirings
+            self.name = structure.name
+            restore_subtrees()
+
+        return restore
+
     def set_diagnostics_name(self) -> None:
         """
         Set the tree name for ROS diagnostics.
@@ -896,7 +939,7 @@ class TreeExecManager:
         """Reload the currently loaded tree."""
         load_response = LoadTree.Response()
         load_response = self.load_tree(
-            request=LoadTree.Request(tree=self.structure_to_msg()),
+            request=LoadTree.Request(tree=deepcopy(self.structure_to_msg())),
             response=load_response,
         )
 
-- 
2.43.0


From 7848ec25523b3610158fa5de84b0d60be304d4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 10/51] fix: edits and loads refuse cycles, second parents,
 repeated ids and wirings, and do what they report

---
 ros_bt_py/ros_bt_py/node.py              | 11 +++++
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 52 ++++++++++++++++--------
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 17 +++++++-
 3 files changed, 62 insertions(+), 18 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 04179e1..1679e36 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -806,6 +806,17 @@ class Node(abc.ABC):
             return Err(
                 TreeTopologyError(f"Already have a child with id '{child.node_id}'")
             )
+        if child.parent is not None:
+            return Err(TreeTopologyError(f"Node '{child.name}' already has a parent"))
+        ancestor: Optional[Node] = self
+        while ancestor is not None:
+            if ancestor is child:
+                return Err(
+                    TreeTopologyError(
+                        f"Cannot add '{child.name}' below itself, this would be a cycle"
+                    )
+                )
+            ancestor = ancestor.parent
         if at_index is None:
             at_index = len(self.children)
 
diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index b08447d..7ee70be 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -126,6 +126,7 @@ class TreeEditManager(TreeExecManager):
 
         response.success = internal_response.success
         response.error_message = internal_response.error_message
+        response.node_id = internal_response.node_id
         return response
 
     @is_edit_service
@@ -196,8 +197,9 @@ class TreeEditManager(TreeExecManager):
         # Add children from msg to node
         missing_children = []
         for child_id in request.node.child_ids:
-            if child_id in self.nodes:
-                match instance.add_child(self.nodes[child_id]):
+            child = self.nodes.get(ros_to_uuid(child_id).unwrap_or(uuid.UUID(int=0)))
+            if child is not None:
+                match instance.add_child(child):
                     case Err(e):
                         self.get_logger().warn(f"Could not add child: {str(e)}")
                         missing_children.append(child_id)
@@ -218,6 +220,7 @@ class TreeEditManager(TreeExecManager):
                 ),
                 response=RemoveNode.Response(),
             )
+            return response
 
         nodes_in_cycles = self.find_nodes_in_cycles()
         if nodes_in_cycles:
@@ -244,16 +247,7 @@ class TreeEditManager(TreeExecManager):
             )
             return response
 
-        if parent_node_id != uuid.UUID(int=0):
-            if parent_node_id not in self._children:
-                self._children[parent_node_id] = []
-            self._children[parent_node_id].append(instance.node_id)
-        if instance.node_id not in self._children:
-            self._children[instance.node_id] = []
-        for child_id in request.node.child_ids:
-            if child_id in self.nodes:
-                self._children[instance.node_id].append(child_id)
-
+        self._sync_children()
         return response
 
     @is_edit_service
@@ -379,6 +373,7 @@ class TreeEditManager(TreeExecManager):
 
         old_node = self.nodes[node_id]
         request.new_node.node_id = uuid_to_ros(node_id)
+        self.subtree_manager.remove_subtree(node_id)
 
         match self.instantiate_node_from_msg(request.new_node, self.ros_node):
             case Err(e):
@@ -539,6 +534,7 @@ class TreeEditManager(TreeExecManager):
         node_msg.inputs = list(new_inputs.values())
         if request.rename_node:
             node_msg.name = request.new_name
+        self.subtree_manager.remove_subtree(node_id)
         match self.instantiate_node_from_msg(node_msg, ros_node=self.ros_node):
             case Err(e):
                 response.success = False
@@ -701,7 +697,8 @@ class TreeEditManager(TreeExecManager):
         new_parent = self.nodes[parent_node_id]
 
         if (
-            new_parent.node_config.max_children is not None
+            node.parent is not new_parent
+            and new_parent.node_config.max_children is not None
             and len(new_parent.children) == new_parent.node_config.max_children
         ):
             response.success = False
@@ -715,8 +712,9 @@ class TreeEditManager(TreeExecManager):
         # If the new parent is in the moved node's descendant set, attaching
         # it would create a cycle.  Use the editable adjacency graph rather
         # than recursive Node serialization so malformed graphs stay bounded.
+        self._sync_children()
         descendants = set()
-        pending = list(self._children.get(node_id, []))
+        pending = [node_id]
         while pending:
             descendant_id = pending.pop()
             if descendant_id in descendants:
@@ -727,7 +725,7 @@ class TreeEditManager(TreeExecManager):
             response.success = False
             response.error_message = (
                 f"Cannot move node {node.name} to new parent node {new_parent.name}. "
-                f"{new_parent.name} is a child of {node.name}!"
+                f"{new_parent.name} is the same node or a child of {node.name}!"
             )
             return response
 
@@ -799,6 +797,11 @@ class TreeEditManager(TreeExecManager):
             )
             return response
 
+        if old_node_id == new_node_id:
+            response.success = False
+            response.error_message = f'Cannot replace node "{old_node_id}" by itself.'
+            return response
+
         old_node = self.nodes[old_node_id]
         new_node = self.nodes[new_node_id]
 
@@ -946,7 +949,16 @@ class TreeEditManager(TreeExecManager):
                     )
                     return response
                 case Ok(None):
-                    successful_wirings.append(wiring)
+                    pass
+            if wiring in self.wirings or wiring in successful_wirings:
+                if request.ignore_failure:
+                    continue
+                response.success = False
+                response.error_message = (
+                    f'Failed to execute wiring "{wiring}": This wiring already exists'
+                )
+                return response
+            successful_wirings.append(wiring)
 
         # only actually wire any data if there were no errors
         # We made it here, so all the Wirings should be valid. Time to save
@@ -972,7 +984,7 @@ class TreeEditManager(TreeExecManager):
         """
         successful_unwirings = []
         for wiring in request.wirings:
-            if wiring not in self.wirings:
+            if wiring not in self.wirings or wiring in successful_unwirings:
                 if request.ignore_failure:
                     continue
                 response.success = False
@@ -1013,6 +1025,12 @@ class TreeEditManager(TreeExecManager):
                 return response
             case Ok((s, _, _)):
                 response.subtree = s
+        node_ids = {node.node_id for node in response.subtree.nodes}
+        response.subtree.data_wirings = [
+            wiring
+            for wiring in self.wirings
+            if wiring.source.node_id in node_ids and wiring.target.node_id in node_ids
+        ]
         response.success = True
         return response
 
diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 63236bd..1cae683 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1003,6 +1003,7 @@ class TreeExecManager:
             response.error_message = clear_response.error_message
             return response
         # First just add all nodes to the tree, then restore tree structure
+        node_count = 0
         for node in tree.nodes:
             match self.instantiate_node_from_msg(
                 node_msg=node,
@@ -1014,6 +1015,13 @@ class TreeExecManager:
                     return response
                 case Ok(n):
                     self.nodes[n.node_id] = n
+            node_count += 1
+            if len(self.nodes) != node_count:
+                response.success = False
+                response.error_message = (
+                    f"Multiple nodes in the tree have the id {node.node_id}"
+                )
+                return response
 
         for node in tree.nodes:
             # We just parsed all ids before, so we know them to be safe
@@ -1026,6 +1034,12 @@ class TreeExecManager:
                         return response
                     case Ok(u):
                         child_id = u
+                if child_id not in self.nodes:
+                    response.success = False
+                    response.error_message = (
+                        f"Child {child_id} of node {node.name} is not in the tree"
+                    )
+                    return response
                 match self.nodes[node_id].add_child(self.nodes[child_id]):
                     case Err(e):
                         response.success = False
@@ -1046,7 +1060,8 @@ class TreeExecManager:
                     response.error_message = str(e)
                     return response
                 case Ok(None):
-                    updated_wirings.append(wiring)
+                    if wiring not in updated_wirings:
+                        updated_wirings.append(wiring)
 
         self.name = tree.name
         self._tree_structure.path = tree.path
-- 
2.43.0


From b3a5fe7d8652744d44b63a3643d7c81faa6fc072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 11/51] fix: setting an unchanged value does not hide a pending
 update

---
 ros_bt_py/ros_bt_py/data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 5b6e54a..35ffab9 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -263,7 +263,8 @@ class DataContainer(Generic[ANY], abc.ABC):
         #   returing an iterable of bools rather than a single bool
         if isinstance(has_changed, Iterable):
             has_changed = any(has_changed)
-        self._updated = has_changed
+        # A pending update stays pending until it has been processed
+        self._updated = self._updated or has_changed
         if has_changed:
             self._value = deepcopy(value)
         return Ok(None)
-- 
2.43.0


From c2bc804b06282c979dd3c198ad458b78d2e3a4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 12/51] fix: unset or unparsable serialized values do not
 raise, no debug output on stdout

---
 ros_bt_py/ros_bt_py/data_types.py      | 8 +++++++-
 ros_bt_py/ros_bt_py/logging_manager.py | 2 --
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 35ffab9..cb62a9b 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -348,7 +348,13 @@ class DataContainer(Generic[ANY], abc.ABC):
         then to the :obj:`self._deserialize_value` helper function,
         and finally to :obj:`self.set_value`.
         """
-        value = json.loads(ser_value)
+        if ser_value == "":
+            # This is how `serialize_value` represents an unset value
+            return Ok(None)
+        try:
+            value = json.loads(ser_value)
+        except ValueError as ex:
+            return Err(f"Cannot parse value {ser_value}: {ex}")
         return self._deserialize_value(value).and_then(lambda val: self.set_value(val))
 
     @typechecked
diff --git a/ros_bt_py/ros_bt_py/logging_manager.py b/ros_bt_py/ros_bt_py/logging_manager.py
index b13b065..bc65bec 100644
--- a/ros_bt_py/ros_bt_py/logging_manager.py
+++ b/ros_bt_py/ros_bt_py/logging_manager.py
@@ -126,7 +126,6 @@ class LoggingManager:
             log_message.node_id = uuid_to_ros(node_id)
 
         stack = inspect.stack()
-        print(stack)
         if stacklevel < 0 or stacklevel >= len(stack):
             frame = stack[-1]
         else:
@@ -135,7 +134,6 @@ class LoggingManager:
         log_message.file = os.path.abspath(frame.filename)
         log_message.function = frame.function
         log_message.line = frame.lineno
-        print(log_message)
 
         if self.publish_log_callback is not None:
             self.publish_log_callback(log_message)
-- 
2.43.0


From b47fd75830be8d3e256b1ebe45c5ab1530e876b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 13/51] fix: node diagnostics can be switched while nodes are
 executing

---
 ros_bt_py/ros_bt_py/debug_manager.py | 42 ++++++++++++++++------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/debug_manager.py b/ros_bt_py/ros_bt_py/debug_manager.py
index 77cde21..53063de 100644
--- a/ros_bt_py/ros_bt_py/debug_manager.py
+++ b/ros_bt_py/ros_bt_py/debug_manager.py
@@ -111,13 +111,16 @@ class DebugManager(object):
         """
         diagnostics_msg = None
         diagnostics = {}
-        if self._collect_node_diagnostics:
+        # Collection may be switched while the node is executing
+        collect_node_diagnostics = self._collect_node_diagnostics
+        if collect_node_diagnostics:
             diagnostics = {
                 "name": node_instance.name,
                 "node_id": node_instance.node_id,
                 "stamp": self._ros_node.get_clock().now(),
                 "module": type(node_instance).__module__,
                 "node_class": type(node_instance).__name__,
+                "state": self.diagnostics_state[state][0],
                 "path": [],
             }
 
@@ -131,13 +134,13 @@ class DebugManager(object):
                 diagnostics_msg = self._dict_to_diagnostics_msg(diagnostics)
                 self.publish_node_diagnostics(diagnostics_msg)
 
-        # Contextmanager'ed code is executed here
-        yield
-
-        if self._collect_node_diagnostics:
-            diagnostics["state"] = self.diagnostics_state[state][1]
-            diagnostics["stamp"] = self._ros_node.get_clock().now()
-            if self.publish_node_diagnostics:
+        try:
+            # Contextmanager'ed code is executed here
+            yield
+        finally:
+            if collect_node_diagnostics:
+                diagnostics["state"] = self.diagnostics_state[state][1]
+                diagnostics["stamp"] = self._ros_node.get_clock().now()
                 if self.publish_node_diagnostics:
                     diagnostics_msg = self._dict_to_diagnostics_msg(diagnostics)
                     self.publish_node_diagnostics(diagnostics_msg)
@@ -156,7 +159,9 @@ class DebugManager(object):
         """
         diagnostics_msg = None
         diagnostics = {}
-        if self._collect_node_diagnostics:
+        # Collection may be switched while the node is executing
+        collect_node_diagnostics = self._collect_node_diagnostics
+        if collect_node_diagnostics:
             diagnostics = {
                 "name": node_instance.name,
                 "node_id": node_instance.node_id,
@@ -177,13 +182,14 @@ class DebugManager(object):
                 diagnostics_msg = self._dict_to_diagnostics_msg(diagnostics)
                 self.publish_node_diagnostics(diagnostics_msg)
 
-        # Contextmanager'ed code is executed here
-        yield
-
-        if self._collect_node_diagnostics:
-            diagnostics["state"] = "POST_TICK"
-            diagnostics["stamp"] = self._ros_node.get_clock().now()
+        try:
+            # Contextmanager'ed code is executed here
+            yield
+        finally:
+            if collect_node_diagnostics:
+                diagnostics["state"] = "POST_TICK"
+                diagnostics["stamp"] = self._ros_node.get_clock().now()
 
-            if self.publish_node_diagnostics:
-                diagnostics_msg = self._dict_to_diagnostics_msg(diagnostics)
-                self.publish_node_diagnostics(diagnostics_msg)
+                if self.publish_node_diagnostics:
+                    diagnostics_msg = self._dict_to_diagnostics_msg(diagnostics)
+                    self.publish_node_diagnostics(diagnostics_msg)
-- 
2.43.0


From 466e00bded61c1d556b7fb6fe4ec7df0b2c90d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 14/51] fix: shutdown skips nodes that were never set up and
 always reaches all children

---
 ros_bt_py/ros_bt_py/node.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 1679e36..693b8b4 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -371,7 +371,13 @@ class Node(abc.ABC):
                 container.reset_value()
                 container.reset_updated()
 
-            match self._do_setup():
+            try:
+                setup_result = self._do_setup()
+            except Exception:
+                # The setup may have been partial, so it needs a shutdown
+                self.state = BTNodeState.BROKEN
+                raise
+            match setup_result:
                 case Err(e):
                     self.state = BTNodeState.BROKEN
                     return Err(e)
@@ -668,6 +674,10 @@ class Node(abc.ABC):
         with report_state:
             error = None
 
+            if self.state == BTNodeState.UNINITIALIZED:
+                # Has never been set up, so there is nothing to clean up
+                self.state = BTNodeState.SHUTDOWN
+
             if self.state != BTNodeState.SHUTDOWN:
                 match self._do_shutdown():
                     case Err(e):
@@ -681,7 +691,8 @@ class Node(abc.ABC):
                     action_name="shutdown()",
                 ):
                     case Err(e):
-                        return Err(e)
+                        # Still shut down the children
+                        error = error or e
                     case Ok(None):
                         pass
 
-- 
2.43.0


From 8a95705c73a85e3dc336153f44ee563a3b5a3390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 15/51] fix: fallbacks leave no unselected child running and
 forget their position after a result

---
 ros_bt_py/ros_bt_py/nodes/fallback.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/nodes/fallback.py b/ros_bt_py/ros_bt_py/nodes/fallback.py
index 9366cff..863d2b6 100644
--- a/ros_bt_py/ros_bt_py/nodes/fallback.py
+++ b/ros_bt_py/ros_bt_py/nodes/fallback.py
@@ -63,6 +63,12 @@ class NameSwitch(FlowControl):
                 name = n
         if name not in self.child_map:
             self.logwarn("Ticking without children. Is this really what you want?")
+            for child in self.children:
+                match child.untick():
+                    case Err(e):
+                        return Err(e)
+                    case Ok(_):
+                        pass
             return Ok(BTNodeState.FAILED)
 
         # If we've previously succeeded or failed, reset all children
@@ -287,6 +293,7 @@ class MemoryFallback(FlowControl):
                 if state == BTNodeState.RUNNING:
                     self.last_running_child = index
                 elif state == BTNodeState.SUCCEEDED:
+                    self.last_running_child = 0
                     # untick all children after the one that triggered this
                     # condition
                     for untick_child in self.children[index + 1 :]:
@@ -297,6 +304,7 @@ class MemoryFallback(FlowControl):
                                 pass
                 return Ok(state)
         # If all children failed, we too fail
+        self.last_running_child = 0
         return Ok(BTNodeState.FAILED)
 
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
-- 
2.43.0


From 400213c9f1759eb2b12532208af513e856bded15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 16/51] fix: retries and repeats count afresh after a result

---
 ros_bt_py/ros_bt_py/nodes/decorators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/nodes/decorators.py b/ros_bt_py/ros_bt_py/nodes/decorators.py
index 223148c..635ecb7 100644
--- a/ros_bt_py/ros_bt_py/nodes/decorators.py
+++ b/ros_bt_py/ros_bt_py/nodes/decorators.py
@@ -296,6 +296,8 @@ class Retry(Decorator):
                 else:
                     self._retry_count = 0
                     return Ok(BTNodeState.FAILED)
+            if state == BTNodeState.SUCCEEDED:
+                self._retry_count = 0
             return Ok(state)
 
         # Succeed if we have no children
@@ -361,7 +363,10 @@ class Repeat(Decorator):
                     self._repeat_count += 1
                     return child.reset().map(lambda _: BTNodeState.RUNNING)
                 else:
+                    self._repeat_count = 0
                     return Ok(BTNodeState.SUCCEEDED)
+            if state == BTNodeState.FAILED:
+                self._repeat_count = 0
             return Ok(state)
 
         # Succeed if we have no children
-- 
2.43.0


From 55b8853d48662b074fce931b4cc72dd64add72e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 17/51] fix: ThrottleSuccess reports the result of its child

---
 ros_bt_py/ros_bt_py/ros_nodes/throttle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
index e1f5162..363b0db 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
@@ -140,9 +140,9 @@ class ThrottleSuccess(Decorator):
         ):
             for child in self.children:
                 result = child.tick()
-                if result == BTNodeState.RUNNING:
+                if result.is_err() or result.ok() == BTNodeState.RUNNING:
                     return result
-                if result == BTNodeState.SUCCEEDED:
+                if result.ok() == BTNodeState.SUCCEEDED:
                     self._last_success_tick = current_time
                     return result
         return Ok(BTNodeState.FAILED)
-- 
2.43.0


From 73541c61327a43c316eb8ff1e85d42865819756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 18/51] fix: action nodes offer the feedback fields of their
 action

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 015af54..c441332 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -510,7 +510,7 @@ class Action(ActionBase):
         for (
             field_name,
             field_type,
-        ) in self._result_type.get_fields_and_field_types().items():
+        ) in self._feedback_type.get_fields_and_field_types().items():
             combined_fields[f"feedback.{field_name}"] = field_type
         outputs = {}
         for field_name, field_type in combined_fields.items():
-- 
2.43.0


From aa1c21e4b081442c2273e135346558a39608f08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 19/51] fix: action nodes fail for goals that were rejected,
 aborted or canceled

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index c441332..3f01ed9 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -33,6 +33,8 @@ from enum import Enum
 
 from ros_bt_py.vendor.result import Result, Ok, Err
 
+from action_msgs.msg import GoalStatus
+
 from rclpy.action.client import ActionClient
 from rclpy.callback_groups import ReentrantCallbackGroup
 from rclpy.time import Time
@@ -180,6 +182,11 @@ class ActionBase(Leaf):
             self._running_goal_handle = None
             self._running_goal_future = None
             self._internal_state = ActionStates.FINISHED
+            if result.status != GoalStatus.STATUS_SUCCEEDED:
+                self.loginfo(f"Action did not succeed, its status is {result.status}!")
+                return self.set_result_outputs(result.result).map(
+                    lambda _: BTNodeState.FAILED
+                )
             self.loginfo("Action succeeded, publishing result!")
             return self.set_result_outputs(result.result)
 
@@ -288,7 +295,11 @@ class ActionBase(Leaf):
             self._running_goal_handle = self._new_goal_request_future.result()
             self._new_goal_request_future = None
 
-            if self._running_goal_handle is None:
+            if (
+                self._running_goal_handle is None
+                or not self._running_goal_handle.accepted
+            ):
+                self._running_goal_handle = None
                 self.logwarn("Action goal was rejeced by the server!")
                 self._internal_state = ActionStates.FINISHED
                 return Ok(BTNodeState.FAILED)
-- 
2.43.0


From f50d5d37da90e7c7fcccc96dd546ec792a34f1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 20/51] fix: action nodes never lose a goal the server may have
 accepted

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 67 +++++++++++++++++++++----
 1 file changed, 58 insertions(+), 9 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 3f01ed9..a7d719b 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -90,7 +90,13 @@ class ActionBase(Leaf):
     _action_type: type
     _action_client: Optional[ActionClient] = None
     _feedback = None
-    _internal_state: ActionStates
+    _internal_state: ActionStates = ActionStates.IDLE
+
+    _input_goal = None
+    _new_goal_request_future = None
+    _running_goal_handle = None
+    _running_goal_future = None
+    _cancel_goal_future = None
 
     # Returns the action goal message that should be send to the server.
     @abc.abstractmethod
@@ -148,6 +154,7 @@ class ActionBase(Leaf):
 
         self._internal_state = ActionStates.IDLE
 
+        self._input_goal = None
         self._new_goal_request_future = None
         self._running_goal_handle = None
         self._running_goal_future = None
@@ -164,6 +171,33 @@ class ActionBase(Leaf):
         with self._lock:
             self._feedback = feedback
 
+    def _abandon_goal_request(self) -> None:
+        """
+        Give up a goal that was sent, but not accepted by the server yet.
+
+        As soon as the server accepts it anyway, it will be cancelled.
+        """
+        request_future = self._new_goal_request_future
+        action_client = self._action_client
+        self._new_goal_request_future = None
+        # The client has to stay alive until the server has answered
+        self._action_client = None
+
+        def cancel_accepted_goal(future) -> None:
+            goal_handle = future.result()
+            if goal_handle is not None and goal_handle.accepted:
+                goal_handle.cancel_goal_async()
+            if action_client is not None:
+                action_client.destroy()
+
+        if request_future is not None:
+            request_future.add_done_callback(cancel_accepted_goal)
+
+    def _destroy_action_client(self) -> None:
+        if self._action_client is not None:
+            self._action_client.destroy()
+            self._action_client = None
+
     def _do_tick_wait_for_action_complete(
         self,
     ) -> Result[BTNodeState, BehaviorTreeException]:
@@ -304,6 +338,11 @@ class ActionBase(Leaf):
                 self._internal_state = ActionStates.FINISHED
                 return Ok(BTNodeState.FAILED)
 
+            if self._input_goal is not None:
+                # The inputs have changed since this goal was sent
+                self._internal_state = ActionStates.REQUEST_GOAL_CANCELLATION
+                return Ok(BTNodeState.RUNNING)
+
             self._running_goal_start_time = self.ros_node.get_clock().now()
             self._running_goal_future = self._running_goal_handle.get_result_async()
 
@@ -327,7 +366,9 @@ class ActionBase(Leaf):
             case Ok(b):
                 updated = b
         # If the current state is idle, this is the first tick after setup, reset or untick
-        if updated:
+        if updated or (
+            self._internal_state == ActionStates.IDLE and self._input_goal is None
+        ):
             match self.get_goal():
                 case Err(e):
                     return Err(e)
@@ -336,10 +377,15 @@ class ActionBase(Leaf):
         if updated and self._internal_state not in [
             ActionStates.IDLE,
             ActionStates.FINISHED,
+            ActionStates.WAITING_FOR_GOAL_ACCEPTANCE,
             ActionStates.WAITING_FOR_GOAL_CANCELLATION,
         ]:
             self._internal_state = ActionStates.REQUEST_GOAL_CANCELLATION
 
+        if updated and self._internal_state == ActionStates.IDLE:
+            # The name of the action may have changed
+            self._destroy_action_client()
+
         if self._action_client is None:
             match self.inputs.get_value_as("action_name", str):
                 case Err(e):
@@ -381,20 +427,25 @@ class ActionBase(Leaf):
         if self._input_goal is None:
             return Ok(self.state)
         else:
-            if self._action_client is not None:
-                self._action_client.destroy()
-                self._action_client = None
+            self._destroy_action_client()
 
             self._internal_state = ActionStates.IDLE
             return Ok(BTNodeState.RUNNING)
 
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
-        if self._internal_state == ActionStates.WAITING_FOR_ACTION_COMPLETE:
+        if self._internal_state == ActionStates.WAITING_FOR_GOAL_ACCEPTANCE:
+            self._abandon_goal_request()
+
+        if self._internal_state in [
+            ActionStates.WAITING_FOR_ACTION_COMPLETE,
+            ActionStates.REQUEST_GOAL_CANCELLATION,
+        ]:
             cancel_result = self._do_tick_cancel_running_goal()
             if cancel_result.is_err():
                 return cancel_result
 
         self._last_goal_time = None
+        self._input_goal = None
         self._running_goal_future = None
         self._running_goal_handle = None
         self._cancel_goal_future = None
@@ -409,9 +460,7 @@ class ActionBase(Leaf):
                 return Err(e)
             case Ok(_):
                 pass
-        if self._action_client is not None:
-            self._action_client.destroy()
-            self._action_client = None
+        self._destroy_action_client()
         return Ok(BTNodeState.IDLE)
 
     def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
-- 
2.43.0


From 2a6a7e9a0a8e750544edf55dd5d8e7d6e77bd7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 21/51] fix: topic, service and subtree nodes can always be
 stopped and follow type changes

---
 ros_bt_py/ros_bt_py/ros_nodes/service.py | 7 +++++--
 ros_bt_py/ros_bt_py/ros_nodes/subtree.py | 2 +-
 ros_bt_py/ros_bt_py/ros_nodes/topic.py   | 6 ++++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/service.py b/ros_bt_py/ros_bt_py/ros_nodes/service.py
index 4198e9e..4f51b06 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/service.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/service.py
@@ -366,6 +366,9 @@ class Service(ServiceBase):
 class WaitForService(Leaf):
     """Wait for a service to be available, fails if this wait times out."""
 
+    _service_client: Optional[Client] = None
+    _last_service_call_time: Optional[Time] = None
+
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         if not self.has_ros_node:
             self.logerr("No ROS node reference available!")
@@ -382,8 +385,8 @@ class WaitForService(Leaf):
             case Ok(f):
                 self._wait_for_service_seconds = f
 
-        self._service_client: Optional[Client] = None
-        self._last_service_call_time: Optional[Time] = None
+        self._service_client = None
+        self._last_service_call_time = None
         return Ok(BTNodeState.IDLE)
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
diff --git a/ros_bt_py/ros_bt_py/ros_nodes/subtree.py b/ros_bt_py/ros_bt_py/ros_nodes/subtree.py
index b22efdd..8d399d8 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/subtree.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/subtree.py
@@ -238,7 +238,7 @@ class Subtree(Leaf):
 
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
         if not self.root:
-            return Err(BehaviorTreeException("Subtree has no root node"))
+            return Ok(BTNodeState.IDLE)
         untick_root_result = self.root.untick()
         if self.subtree_manager:
             self.subtree_manager.add_subtree_state(
diff --git a/ros_bt_py/ros_bt_py/ros_nodes/topic.py b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
index b179837..f12ae24 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/topic.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
@@ -294,7 +294,7 @@ class TopicMemorySubscriber(Leaf):
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         match self.inputs.any_updated(
-            "topic_name", "reliable", "transient_local", "depth"
+            "topic_type", "topic_name", "reliable", "transient_local", "depth"
         ):
             case Err(e):
                 return Err(e)
@@ -463,6 +463,8 @@ class TopicMemorySubscriber(Leaf):
     )
 )
 class TopicPublisher(Leaf):
+    _publisher = None
+
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         if not self.has_ros_node:
             error_msg = f"{self.name} does not have a refrence to a ROS node!"
@@ -474,7 +476,7 @@ class TopicPublisher(Leaf):
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         match self.inputs.any_updated(
-            "topic_name", "reliable", "transient_local", "depth"
+            "topic_type", "topic_name", "reliable", "transient_local", "depth"
         ):
             case Err(e):
                 return Err(e)
-- 
2.43.0


From 82d706d46b28a1df0934519002f70c8c1239acd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:09 +0000
Subject: [PATCH 22/51] fix: loading a tree file that is empty, unreadable or
 not a tree fails cleanly

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 30 +++++++++++++++---------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 1cae683..974e655 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -255,7 +255,7 @@ def load_tree_from_file(
 ) -> MigrateTree.Response:
     """Load a tree file from disk."""
     tree = request.tree
-    while not tree.nodes:
+    if not tree.nodes:
         file_path = ""
         if not tree.path:
             response.success = False
@@ -270,9 +270,14 @@ def load_tree_from_file(
 
         elif tree.path.startswith("package://"):
             package_name = tree.path[len("package://") :].split("/", 1)[0]
-            package_path = ament_index_python.get_package_share_directory(
-                package_name=package_name
-            )
+            try:
+                package_path = ament_index_python.get_package_share_directory(
+                    package_name=package_name
+                )
+            except (LookupError, ValueError) as ex:
+                response.success = False
+                response.error_message = f"Package {package_name} not found: {str(ex)}"
+                return response
             file_path = (
                 package_path + tree.path[len("package://") + len(package_name) :]
             )
@@ -288,23 +293,26 @@ def load_tree_from_file(
         # load tree file and parse yaml, then convert to Tree message
         try:
             tree_file = open(file_path, "r")
-        except IOError as ex:
+        except (IOError, ValueError) as ex:
             response.success = False
             response.error_message = f"Error opening file {file_path}: {str(ex)}"
             return response
 
         with tree_file:
-            tree_yaml = tree_file.read()
             try:
-                response = parse_tree_yaml(tree_yaml=tree_yaml)
-            except yaml.scanner.ScannerError as ex:
+                file_response = parse_tree_yaml(tree_yaml=tree_file.read())
+            except Exception as ex:
+                # The content of the file is arbitrary, and so are its errors
                 response.success = False
                 response.error_message = (
-                    f"Encountered a ScannerError while parsing the tree yaml: {str(ex)}"
+                    f"Error reading tree from {file_path}: "
+                    f"{type(ex).__name__}: {str(ex)}"
                 )
                 return response
-            tree = response.tree
-            tree.path = request.tree.path
+        if not file_response.success:
+            return file_response
+        tree = file_response.tree
+        tree.path = request.tree.path
 
     response.success = True
     response.tree = tree
-- 
2.43.0


From a2431a67b8f424924637fa9e403119840faf86c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 23/51] fix: saving a tree is atomic, stays inside the storage
 path and handles one request at a time

---
 ros_bt_py/ros_bt_py/package_manager.py | 37 ++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 18d22de..c05a7f5 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -29,7 +29,9 @@
 import json
 import os
 import inspect
+import uuid
 from importlib import metadata
+from threading import Lock
 import ament_index_python
 from ament_index_python import PackageNotFoundError
 
@@ -107,6 +109,7 @@ class PackageManager(object):
         publish_message_list_callback: Optional[rclpy.publisher.Publisher] = None,
         publish_packages_list_callback: Optional[rclpy.publisher.Publisher] = None,
     ):
+        self._save_lock = Lock()
         self.item_id = 0
         self.tree_storage_directory_paths = []
         for path in tree_storage_directory_paths:
@@ -139,6 +142,13 @@ class PackageManager(object):
         Always returns the path under which the tree was saved
         in response.file_path in the package:// style
         """
+        # Requests may arrive concurrently
+        with self._save_lock:
+            return self._save_tree_to_path(request, response)
+
+    def _save_tree_to_path(
+        self, request: SaveTree.Request, response: SaveTree.Response
+    ) -> SaveTree.Response:
         if request.storage_path not in self.tree_storage_directory_paths:
             response.success = False
             response.error_message = "Storage container does not exist on host!"
@@ -155,6 +165,13 @@ class PackageManager(object):
             )
 
             split_save_filepath = save_filepath.rstrip(os.sep)  # split trailing /
+
+            storage_path = os.path.abspath(request.storage_path)
+            if os.path.commonpath([storage_path, save_filepath]) != storage_path:
+                response.success = False
+                response.error_message = "File path is outside of the storage path!"
+                return response
+
             path, filename = os.path.split(split_save_filepath)
 
             try:
@@ -191,15 +208,25 @@ class PackageManager(object):
             # Set path to blank, this value should not be persisted
             request.tree.path = ""
 
-            with open(split_save_filepath, "w") as save_file:
-                save_file.write(f"version: {metadata.version('ros_bt_py')}\n")
-                msg = rosidl_runtime_py.message_to_yaml(request.tree)
-                save_file.write(msg)
+            # Never leave a partially written file under the requested name
+            temporary_filepath = os.path.join(path, f".{filename}.{uuid.uuid4()}.tmp")
+            try:
+                with open(temporary_filepath, "w") as save_file:
+                    save_file.write(f"version: {metadata.version('ros_bt_py')}\n")
+                    msg = rosidl_runtime_py.message_to_yaml(request.tree)
+                    save_file.write(msg)
+                    save_file.flush()
+                    os.fsync(save_file.fileno())
+                os.replace(temporary_filepath, split_save_filepath)
+            except Exception:
+                if os.path.exists(temporary_filepath):
+                    os.remove(temporary_filepath)
+                raise
             response.file_path = split_save_filepath
             response.success = True
             return response
 
-        except IOError:
+        except (IOError, ValueError):
             response.success = False
             response.error_message = f'IOError on file: "{request.filepath}"'
 
-- 
2.43.0


From 254d0d84b2f029ff1830f3e290e9b03703d546b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 24/51] fix: parallel nodes report their utility before they
 have been set up

---
 ros_bt_py/ros_bt_py/nodes/parallel.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/nodes/parallel.py b/ros_bt_py/ros_bt_py/nodes/parallel.py
index 8c528ec..27a27c6 100644
--- a/ros_bt_py/ros_bt_py/nodes/parallel.py
+++ b/ros_bt_py/ros_bt_py/nodes/parallel.py
@@ -161,6 +161,12 @@ class Parallel(FlowControl):
         return Ok(BTNodeState.IDLE)
 
     def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
+        # The utility may be requested before the node has been set up
+        match self.inputs.get_value_as("needed_successes", int):
+            case Err(e):
+                return Err(BehaviorTreeException(f"needed_successes is unset: {e}"))
+            case Ok(i):
+                self._needed_successes = i
         if len(self.children) < self._needed_successes:
             return Err(
                 BehaviorTreeException(
@@ -395,6 +401,12 @@ class ParallelFailureTolerance(FlowControl):
         return Ok(BTNodeState.IDLE)
 
     def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
+        # The utility may be requested before the node has been set up
+        match self.inputs.get_value_as("needed_successes", int):
+            case Err(e):
+                return Err(BehaviorTreeException(f"needed_successes is unset: {e}"))
+            case Ok(i):
+                self._needed_successes = i
         if len(self.children) < self._needed_successes:
             return Err(
                 BehaviorTreeException(
-- 
2.43.0


From f8b97dfd0dbc10c0ec19e7edf117e7c8b5a6393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:59 +0000
Subject: [PATCH 25/51] fix: ticking can be started at the moment the previous
 tick thread ends

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 974e655..c4eb3d1 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1183,8 +1183,9 @@ class TreeExecManager:
             return response
 
         else:
-            if not self._tick_thread:
-                self._tick_thread = Thread(target=self.tick_report_exceptions)
+            # The previous thread may have finished only now, and threads can
+            # only be started once
+            self._tick_thread = Thread(target=self.tick_report_exceptions)
             find_root_result = self.find_root()
             if find_root_result.is_err():
                 response.success = False
@@ -1255,8 +1256,9 @@ class TreeExecManager:
             return response
 
         else:
-            if not self._tick_thread:
-                self._tick_thread = Thread(target=self.tick_report_exceptions)
+            # The previous thread may have finished only now, and threads can
+            # only be started once
+            self._tick_thread = Thread(target=self.tick_report_exceptions)
 
             find_root_result = self.find_root()
             if find_root_result.is_err():
-- 
2.43.0


From ab62b87f28773ff6517f9a971c0368dd038051f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 26/51] fix: a tick or reset command never acts on a state that
 the ending tick thread has replaced

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index c4eb3d1..90d1d60 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1367,7 +1367,8 @@ class TreeExecManager:
 
         # Make a new tick thread if there isn't one or the old one has been
         # successfully joined.
-        if self._tick_thread is None or not self._tick_thread.is_alive():
+        is_ticking = self._tick_thread is not None and self._tick_thread.is_alive()
+        if not is_ticking:
             self._tick_thread = Thread(target=self.tick_report_exceptions)
 
         tree_state = self.state
@@ -1518,6 +1519,19 @@ class TreeExecManager:
                 response = self._control_execution_shutdown(request, response)
                 self.publish_state()
 
+        elif is_ticking and request.command in [
+            ControlTreeExecution.Request.TICK_ONCE,
+            ControlTreeExecution.Request.TICK_PERIODICALLY,
+            ControlTreeExecution.Request.TICK_UNTIL_RESULT,
+            ControlTreeExecution.Request.RESET,
+        ]:
+            # The tick thread may have finished by now, but in a state that
+            # was not considered above
+            response.error_message = (
+                "Tried to tick or reset the tree while it is running, aborting"
+            )
+            self.get_logger().warn(response.error_message)
+
         elif request.command == ControlTreeExecution.Request.TICK_ONCE:
             response = self._control_execution_tick_once(request, response)
 
-- 
2.43.0


From d51ea9911cdded0ad500312d574c208ad873e7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 27/51] fix: publish the structure after a shutdown discarded
 the links of a malformed tree

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 90d1d60..ffd0783 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1147,6 +1147,7 @@ class TreeExecManager:
                 node.parent = None
                 node.children = []
             self.state = TreeState.EDITABLE
+            self.publish_structure()
             response.tree_state = self.state
             response.success = True
             response.error_message = ""
-- 
2.43.0


From 0428d375686bb2e3cb8b669824e65ba8e58e90ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 28/51] fix: a subtree reports its node states also after one
 of its nodes raised an exception

---
 ros_bt_py/ros_bt_py/ros_nodes/subtree.py | 51 +++++++++++++-----------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/subtree.py b/ros_bt_py/ros_bt_py/ros_nodes/subtree.py
index 8d399d8..3d27fda 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/subtree.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/subtree.py
@@ -193,6 +193,13 @@ class Subtree(Leaf):
             ].get_runtime_type()
         return Ok(node_outputs)
 
+    def _report_state(self) -> None:
+        """Report the state of the subtree, even if one of its nodes raised an exception."""
+        if self.subtree_manager:
+            self.subtree_manager.add_subtree_state(
+                self.node_id, self.manager.state_to_msg()
+            )
+
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         match self.manager.find_root():
             case Err(e):
@@ -209,11 +216,10 @@ class Subtree(Leaf):
                 return Err(BehaviorTreeException(e))
             case Ok(None):
                 pass
-        setup_root_result = self.root.setup()
-        if self.subtree_manager:
-            self.subtree_manager.add_subtree_state(
-                self.node_id, self.manager.state_to_msg()
-            )
+        try:
+            setup_root_result = self.root.setup()
+        finally:
+            self._report_state()
         return setup_root_result
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
@@ -225,11 +231,11 @@ class Subtree(Leaf):
                 return Err(BehaviorTreeException(e))
             case Ok(None):
                 pass
-        tick_root_result = self.root.tick()
+        try:
+            tick_root_result = self.root.tick()
+        finally:
+            self._report_state()
         if self.subtree_manager:
-            self.subtree_manager.add_subtree_state(
-                self.node_id, self.manager.state_to_msg()
-            )
             if self.subtree_manager.get_publish_data():
                 self.subtree_manager.add_subtree_data(
                     self.node_id, self.manager.data_to_msg()
@@ -239,31 +245,28 @@ class Subtree(Leaf):
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
         if not self.root:
             return Ok(BTNodeState.IDLE)
-        untick_root_result = self.root.untick()
-        if self.subtree_manager:
-            self.subtree_manager.add_subtree_state(
-                self.node_id, self.manager.state_to_msg()
-            )
+        try:
+            untick_root_result = self.root.untick()
+        finally:
+            self._report_state()
         return untick_root_result
 
     def _do_reset(self) -> Result[BTNodeState, BehaviorTreeException]:
         if not self.root:
             return Ok(BTNodeState.IDLE)
-        reset_root_result = self.root.reset()
-        if self.subtree_manager:
-            self.subtree_manager.add_subtree_state(
-                self.node_id, self.manager.state_to_msg()
-            )
+        try:
+            reset_root_result = self.root.reset()
+        finally:
+            self._report_state()
         return reset_root_result
 
     def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
         if not self.root:
             return Ok(BTNodeState.SHUTDOWN)
-        shutdown_root_result = self.root.shutdown()
-        if self.subtree_manager:
-            self.subtree_manager.add_subtree_state(
-                self.node_id, self.manager.state_to_msg()
-            )
+        try:
+            shutdown_root_result = self.root.shutdown()
+        finally:
+            self._report_state()
         return shutdown_root_result
 
     def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
-- 
2.43.0


From de921b48165cea95bec3a51234240cdb439b1b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 29/51] fix: publish the data of a tree after it was reset

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index ffd0783..3820206 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1544,7 +1544,7 @@ class TreeExecManager:
 
         elif request.command == ControlTreeExecution.Request.RESET:
             response = self._control_execution_reset(request, response)
-            self.publish_state()
+            self.publish_data()
 
         elif request.command == ControlTreeExecution.Request.DO_NOTHING:
             self.get_logger().info("Doing nothing in this request")
-- 
2.43.0


From 5ab7462563c2c4fd1f8f721a4b7d6f86e2e30511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 30/51] fix: dictionaries can hold and publish values other
 than strings

---
 ros_bt_py/ros_bt_py/data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index cb62a9b..fb09b21 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -906,8 +906,8 @@ class DictType(IterableContainer[dict[str, Any]]):
         return super().set_value(cleaned_keys)
 
     @typechecked
-    def _serialize_value(self, value: dict[str, Any]) -> dict[str, str]:
-        serialized_dict: dict[str, str] = {}
+    def _serialize_value(self, value: dict[str, Any]) -> dict[str, Any]:
+        serialized_dict: dict[str, Any] = {}
         for key, item in value.items():
             serialized_dict[key] = self._element_type._serialize_value(item)
         return serialized_dict
-- 
2.43.0


From 8fe1f4bf3ebec8a50456d692d3c1d459db2ee0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:37 +0000
Subject: [PATCH 31/51] fix: topic subscriber nodes do not report messages of a
 destroyed subscription

---
 ros_bt_py/ros_bt_py/ros_nodes/topic.py | 33 ++++++++++++++++++--------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/topic.py b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
index f12ae24..2f449bc 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/topic.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
@@ -26,6 +26,7 @@
 # ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 # POSSIBILITY OF SUCH DAMAGE.
 
+from functools import partial
 from typing import Optional
 
 from ros_bt_py.vendor.result import Result, Ok, Err, do
@@ -86,12 +87,15 @@ class TopicSubscriber(Leaf):
             self.logerr(error_msg)
             return Err(BehaviorTreeException(error_msg))
         self._subscriber = None
+        self._subscription_token = None
         self._msg = None
         return Ok(BTNodeState.IDLE)
 
-    def _callback(self, msg):
+    def _callback(self, token, msg):
         with self._lock:
-            self._msg = msg
+            # Messages of a subscription that has been destroyed since are stale
+            if token is self._subscription_token:
+                self._msg = msg
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         match self.inputs.any_updated(
@@ -147,10 +151,11 @@ class TopicSubscriber(Leaf):
                 case Ok((t, n)):
                     topic_type = t
                     topic_name = n
+            self._subscription_token = object()
             self._subscriber = self.ros_node.create_subscription(
                 msg_type=topic_type,
                 topic=topic_name,
-                callback=self._callback,
+                callback=partial(self._callback, self._subscription_token),
                 qos_profile=qos_profile,
             )
 
@@ -168,7 +173,9 @@ class TopicSubscriber(Leaf):
         return self._do_reset().map(lambda _: BTNodeState.SHUTDOWN)
 
     def _do_reset(self) -> Result[BTNodeState, BehaviorTreeException]:
-        self._msg = None
+        with self._lock:
+            self._subscription_token = None
+            self._msg = None
         subscriber = getattr(self, "_subscriber", None)
         if subscriber is None:
             return Ok(BTNodeState.IDLE)
@@ -278,6 +285,7 @@ class TopicMemorySubscriber(Leaf):
             self.logerr(error_msg)
             return Err(BehaviorTreeException(error_msg))
         self._subscriber = None
+        self._subscription_token = None
         self._msg = None
         self._msg_timestamp: Optional[Time] = self.ros_node.get_clock().now()
         match self.inputs.get_value_as("memory_delay", float):
@@ -287,10 +295,12 @@ class TopicMemorySubscriber(Leaf):
                 self._memory_delay = f
         return Ok(BTNodeState.IDLE)
 
-    def _callback(self, msg):
+    def _callback(self, token, msg):
         with self._lock:
-            self._msg = msg
-            self._msg_timestamp = self.ros_node.get_clock().now()
+            # Messages of a subscription that has been destroyed since are stale
+            if token is self._subscription_token:
+                self._msg = msg
+                self._msg_timestamp = self.ros_node.get_clock().now()
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         match self.inputs.any_updated(
@@ -346,10 +356,11 @@ class TopicMemorySubscriber(Leaf):
                 case Ok((t, n)):
                     topic_type = t
                     topic_name = n
+            self._subscription_token = object()
             self._subscriber = self.ros_node.create_subscription(
                 msg_type=topic_type,
                 topic=topic_name,
-                callback=self._callback,
+                callback=partial(self._callback, self._subscription_token),
                 qos_profile=qos_profile,
             )
 
@@ -370,8 +381,10 @@ class TopicMemorySubscriber(Leaf):
         return self._do_reset().map(lambda _: BTNodeState.SHUTDOWN)
 
     def _do_reset(self) -> Result[BTNodeState, BehaviorTreeException]:
-        self._msg = None
-        self._msg_timestamp = None
+        with self._lock:
+            self._subscription_token = None
+            self._msg = None
+            self._msg_timestamp = None
         subscriber = getattr(self, "_subscriber", None)
         if subscriber is None:
             return Ok(BTNodeState.IDLE)
-- 
2.43.0


From 5bf3ce98854b6daca3601bc1513a21c4177fb52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:59 +0000
Subject: [PATCH 32/51] fix: action nodes fail if the server does not answer in
 time

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 27 +++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index a7d719b..34529fb 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -198,6 +198,10 @@ class ActionBase(Leaf):
             self._action_client.destroy()
             self._action_client = None
 
+    def _is_timed_out(self, start_time: Time) -> bool:
+        running_time = self.ros_node.get_clock().now() - start_time
+        return running_time.nanoseconds / 1e9 > self._timeout_seconds
+
     def _do_tick_wait_for_action_complete(
         self,
     ) -> Result[BTNodeState, BehaviorTreeException]:
@@ -262,6 +266,7 @@ class ActionBase(Leaf):
             return Err(BehaviorTreeException("Running goal handle is not available"))
 
         self._cancel_goal_future = self._running_goal_handle.cancel_goal_async()
+        self._cancel_request_time = self.ros_node.get_clock().now()
         self._internal_state = ActionStates.WAITING_FOR_GOAL_CANCELLATION
         return Ok(BTNodeState.RUNNING)
 
@@ -298,6 +303,17 @@ class ActionBase(Leaf):
 
             self._internal_state = ActionStates.FINISHED
             return Ok(BTNodeState.FAILED)
+
+        if self._is_timed_out(self._cancel_request_time):
+            self.logwarn("The server did not answer the request to cancel the goal!")
+            self._cancel_goal_future = None
+            self._running_goal_handle = None
+            self._running_goal_future = None
+
+            self._internal_state = ActionStates.FINISHED
+            if self._input_goal is not None:
+                return Ok(BTNodeState.RUNNING)
+            return Ok(BTNodeState.FAILED)
         return Ok(BTNodeState.RUNNING)
 
     def _do_tick_send_new_goal(self) -> Result[BTNodeState, BehaviorTreeException]:
@@ -308,6 +324,8 @@ class ActionBase(Leaf):
             goal=self._input_goal, feedback_callback=self._feedback_cb
         )
 
+        self._goal_request_time = self.ros_node.get_clock().now()
+
         self._input_goal = None
         self._internal_state = ActionStates.WAITING_FOR_GOAL_ACCEPTANCE
 
@@ -357,6 +375,15 @@ class ActionBase(Leaf):
             self._internal_state = ActionStates.FINISHED
             return Ok(BTNodeState.FAILED)
 
+        if self._is_timed_out(self._goal_request_time):
+            self.logwarn("The server did not answer the goal request!")
+            self._abandon_goal_request()
+
+            self._internal_state = ActionStates.FINISHED
+            if self._input_goal is not None:
+                return Ok(BTNodeState.RUNNING)
+            return Ok(BTNodeState.FAILED)
+
         return Ok(BTNodeState.RUNNING)
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
-- 
2.43.0


From e5da42b82272589285dcdcc77ad7dc596e82954a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:52 +0000
Subject: [PATCH 33/51] fix: action nodes ignore the feedback of earlier goals

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 34529fb..622c8f7 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -26,6 +26,7 @@
 # ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 # POSSIBILITY OF SUCH DAMAGE.
 
+from functools import partial
 from threading import Lock
 import abc
 from typing import Optional, Any
@@ -90,6 +91,8 @@ class ActionBase(Leaf):
     _action_type: type
     _action_client: Optional[ActionClient] = None
     _feedback = None
+    # Identifies the goal whose feedback is accepted
+    _feedback_token: Optional[object] = None
     _internal_state: ActionStates = ActionStates.IDLE
 
     _input_goal = None
@@ -166,9 +169,12 @@ class ActionBase(Leaf):
 
         return Ok(BTNodeState.IDLE)
 
-    def _feedback_cb(self, feedback) -> None:
+    def _feedback_cb(self, goal_token: object, feedback) -> None:
         self.logdebug(f"Received feedback message: {feedback}")
         with self._lock:
+            if goal_token is not self._feedback_token:
+                # This feedback belongs to a goal that is not tracked anymore
+                return
             self._feedback = feedback
 
     def _abandon_goal_request(self) -> None:
@@ -320,8 +326,12 @@ class ActionBase(Leaf):
         """Tick to request the execution of a new goal on the action server."""
         if self._action_client is None:
             return Err(BehaviorTreeException("No action client available"))
+        with self._lock:
+            self._feedback_token = object()
+            self._feedback = None
         self._new_goal_request_future = self._action_client.send_goal_async(
-            goal=self._input_goal, feedback_callback=self._feedback_cb
+            goal=self._input_goal,
+            feedback_callback=partial(self._feedback_cb, self._feedback_token),
         )
 
         self._goal_request_time = self.ros_node.get_clock().now()
-- 
2.43.0


From a55580d5de747ee465fa43b74aea940514115f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:36 +0000
Subject: [PATCH 34/51] fix: action nodes send their goal to the action they
 are configured for

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 622c8f7..2529640 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -90,6 +90,7 @@ class ActionBase(Leaf):
 
     _action_type: type
     _action_client: Optional[ActionClient] = None
+    _action_client_name: Optional[str] = None
     _feedback = None
     # Identifies the goal whose feedback is accepted
     _feedback_token: Optional[object] = None
@@ -419,16 +420,20 @@ class ActionBase(Leaf):
         ]:
             self._internal_state = ActionStates.REQUEST_GOAL_CANCELLATION
 
-        if updated and self._internal_state == ActionStates.IDLE:
-            # The name of the action may have changed
+        match self.inputs.get_value_as("action_name", str):
+            case Err(e):
+                return Err(e)
+            case Ok(s):
+                action_name = s
+        if (
+            self._internal_state == ActionStates.IDLE
+            and action_name != self._action_client_name
+        ):
+            # The name of the action may have changed, even before the last untick
             self._destroy_action_client()
 
         if self._action_client is None:
-            match self.inputs.get_value_as("action_name", str):
-                case Err(e):
-                    return Err(e)
-                case Ok(s):
-                    action_name = s
+            self._action_client_name = action_name
             self._action_client = ActionClient(
                 node=self.ros_node,
                 action_type=self._action_type,
-- 
2.43.0


From ddc0be671b06b3b33cc0ca87e33b4897c265f4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:19 +0000
Subject: [PATCH 35/51] fix: a tree is never saved in place of its storage
 directory

---
 ros_bt_py/ros_bt_py/package_manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index c05a7f5..74d23a3 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -167,7 +167,10 @@ class PackageManager(object):
             split_save_filepath = save_filepath.rstrip(os.sep)  # split trailing /
 
             storage_path = os.path.abspath(request.storage_path)
-            if os.path.commonpath([storage_path, save_filepath]) != storage_path:
+            if (
+                save_filepath == storage_path
+                or os.path.commonpath([storage_path, save_filepath]) != storage_path
+            ):
                 response.success = False
                 response.error_message = "File path is outside of the storage path!"
                 return response
-- 
2.43.0


From e667c2985aa54a25d45fdfb026feb391a14eb193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:19 +0000
Subject: [PATCH 36/51] fix: trees can be saved under long file names

---
 ros_bt_py/ros_bt_py/package_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 74d23a3..c453052 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -175,7 +175,7 @@ class PackageManager(object):
                 response.error_message = "File path is outside of the storage path!"
                 return response
 
-            path, filename = os.path.split(split_save_filepath)
+            path = os.path.dirname(split_save_filepath)
 
             try:
                 os.makedirs(path)
@@ -212,7 +212,7 @@ class PackageManager(object):
             request.tree.path = ""
 
             # Never leave a partially written file under the requested name
-            temporary_filepath = os.path.join(path, f".{filename}.{uuid.uuid4()}.tmp")
+            temporary_filepath = os.path.join(path, f".{uuid.uuid4()}.tmp")
             try:
                 with open(temporary_filepath, "w") as save_file:
                     save_file.write(f"version: {metadata.version('ros_bt_py')}\n")
-- 
2.43.0


From 5b6085d15aaac22ed31d7957185e3aeb7d2041ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:49 +0000
Subject: [PATCH 37/51] fix: loading a named pipe is refused instead of
 blocking for ever

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 3820206..285a80d 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -290,6 +290,14 @@ def load_tree_from_file(
             )
             return response
 
+        if os.path.exists(file_path) and not os.path.isfile(file_path):
+            # Opening a named pipe would block
+            response.success = False
+            response.error_message = (
+                f"Error opening file {file_path}: It is not a regular file"
+            )
+            return response
+
         # load tree file and parse yaml, then convert to Tree message
         try:
             tree_file = open(file_path, "r")
-- 
2.43.0


From 90c41b2d3ecc86a60205a38bdd0e17ae9e94dbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:04 +0000
Subject: [PATCH 38/51] fix: a tree file with text that is not valid Unicode is
 refused instead of ending the process

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 285a80d..c1b1a74 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -28,6 +28,7 @@
 
 from copy import copy, deepcopy
 from importlib import metadata
+import json
 from math import isfinite
 import os
 import uuid
@@ -231,6 +232,8 @@ def parse_tree_yaml(tree_yaml: str) -> MigrateTree.Response:
                     case Ok(d):
                         datum = d
             datum.pop("version")
+            # Text that is not valid Unicode could never be logged or published
+            json.dumps(datum, ensure_ascii=False, default=str).encode("utf-8")
             rosidl_runtime_py.set_message_fields(response.tree, datum)
             read_data = True
         else:
-- 
2.43.0


From 7be688be6889b97661b3b7f03fa4f1944fffa7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:57 +0000
Subject: [PATCH 39/51] fix: an invalid package name is refused when its
 structure is asked for

---
 ros_bt_py/ros_bt_py/package_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index c453052..af4dbb2 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -364,7 +364,7 @@ class PackageManager(object):
 
             response.success = True
             response.package_structure = json.dumps(package_structure)
-        except PackageNotFoundError:
+        except (PackageNotFoundError, ValueError):
             response.success = False
             response.error_message = f'Package "{request.package}" does not exist'
 
-- 
2.43.0


From 9b26edd13c2765da50f150020e80fc9343212fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:57 +0000
Subject: [PATCH 40/51] fix: a node module that raises on import is reported,
 not fatal

---
 ros_bt_py/ros_bt_py/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 693b8b4..01d2d1c 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -1310,7 +1310,7 @@ def load_node_module(package_name: str) -> Optional[ModuleType]:
     """
     try:
         return importlib.import_module(package_name)
-    except (ImportError, ValueError) as exc:
+    except Exception as exc:  # a module may raise anything when it is imported
         rclpy.logging.get_logger(package_name).error(
             f'Could not load node module "{package_name}": {repr(exc)}',
             throttle_duration_sec=30,
-- 
2.43.0


From ad05214ba8b53cecf2bab485cf784ad54d56bd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:57 +0000
Subject: [PATCH 41/51] fix: node classes can be listed while others are being
 loaded

---
 ros_bt_py/ros_bt_py/package_manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index af4dbb2..f773d07 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -431,8 +431,9 @@ class PackageManager(object):
                 return response
 
         response.available_nodes = []
-        for module, nodes in Node.node_classes.items():
-            for class_name, node_class in nodes.items():
+        # Other threads may register further classes meanwhile
+        for module, nodes in list(Node.node_classes.items()):
+            for class_name, node_class in list(nodes.items()):
                 if not node_class._node_config:
                     LOGGER.warning(
                         f"Node class: {node_class.__name__} does not have node config!"
-- 
2.43.0


From 26d514af1ddef5d51dc2c2b7e9553812d8a7a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:57 +0000
Subject: [PATCH 42/51] fix: item ids of concurrently requested folder
 structures are unique

---
 ros_bt_py/ros_bt_py/package_manager.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index f773d07..b1d5033 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -29,6 +29,7 @@
 import json
 import os
 import inspect
+import itertools
 import uuid
 from importlib import metadata
 from threading import Lock
@@ -110,7 +111,6 @@ class PackageManager(object):
         publish_packages_list_callback: Optional[rclpy.publisher.Publisher] = None,
     ):
         self._save_lock = Lock()
-        self.item_id = 0
         self.tree_storage_directory_paths = []
         for path in tree_storage_directory_paths:
             self.tree_storage_directory_paths.append(
@@ -314,16 +314,11 @@ class PackageManager(object):
         ):
             self.packages_list_pub.publish(self.packages)
 
-    def get_id(self):
-        self.item_id += 1
-        return self.item_id
-
-    def reset_id(self):
-        self.item_id = 0
-
-    def path_to_dict(self, path, show_hidden=False, parent=0):
+    def path_to_dict(self, path, show_hidden=False, parent=0, ids=None):
         """Turn a path into a dictionary."""
-        d = {"name": os.path.basename(path), "item_id": self.get_id(), "parent": parent}
+        # Requests may be handled concurrently, so each counts for itself
+        ids = itertools.count(1) if ids is None else ids
+        d = {"name": os.path.basename(path), "item_id": next(ids), "parent": parent}
         if os.path.isdir(path):
             try:
                 d["type"] = "directory"
@@ -332,6 +327,7 @@ class PackageManager(object):
                         os.path.join(path, f),
                         show_hidden=show_hidden,
                         parent=d["item_id"],
+                        ids=ids,
                     )
                     for f in os.listdir(path)
                     if (show_hidden or not f.startswith("."))
@@ -357,7 +353,6 @@ class PackageManager(object):
             package_path = ament_index_python.get_package_share_directory(
                 request.package
             )
-            self.reset_id()
             package_structure = self.path_to_dict(
                 path=package_path, show_hidden=request.show_hidden
             )
@@ -387,7 +382,6 @@ class PackageManager(object):
                 f"{self.tree_storage_directory_paths}!"
             )
             return response
-        self.reset_id()
         package_structure = self.path_to_dict(
             path=os.path.abspath(request.storage_folder),
             show_hidden=request.show_hidden,
-- 
2.43.0


From 998b9c09505e69248eea1a18b96506cefdc26ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:15 +0000
Subject: [PATCH 43/51] fix: EnumSwitch stops its children when no child
 matches

---
 ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
index 888ea4a..5206c0c 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
@@ -123,13 +123,13 @@ class EnumSwitch(FlowControl):
             e_name = self.pchild_dict[case]
         else:
             self.logwarn("Input did not match possible children.")
-            return Ok(BTNodeState.FAILED)
+            return self._do_untick().map(lambda _: BTNodeState.FAILED)
 
         if e_name not in self.child_map:
             self.logwarn(
                 "Ticking without matching child. Is this really what you want?"
             )
-            return Ok(BTNodeState.FAILED)
+            return self._do_untick().map(lambda _: BTNodeState.FAILED)
 
         # If we've previously succeeded or failed, reset all children
         if self.state in [BTNodeState.SUCCEEDED, BTNodeState.FAILED]:
-- 
2.43.0


From eb9fd2ea3c6a81d4ade90237f0fb23581eefac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:30 +0000
Subject: [PATCH 44/51] fix: EnumFields accepts messages that have constants

---
 ros_bt_py/ros_bt_py/ros_nodes/enum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/enum.py b/ros_bt_py/ros_bt_py/ros_nodes/enum.py
index 3e0fcfb..2cfe1c1 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/enum.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/enum.py
@@ -74,7 +74,7 @@ class EnumFields(Leaf):
         node_outputs = {}
         for field in self._constants:
             field_type = type(getattr(self._message_class, field))
-            if field not in GENERIC_TYPE_MAP.keys():
+            if field_type not in GENERIC_TYPE_MAP.keys():
                 return Err(NodeConfigError(f"Field {field} has an incompatible type"))
             match get_iotype_for_dict(GENERIC_TYPE_MAP[field_type]):
                 case Err(e):
-- 
2.43.0


From 97ead2f655ae9173b542c623d961551faddcbc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:30 +0000
Subject: [PATCH 45/51] fix: SetAttr reads the input it declares

---
 ros_bt_py/ros_bt_py/nodes/setters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/setters.py b/ros_bt_py/ros_bt_py/nodes/setters.py
index 28ef75c..8e6e063 100644
--- a/ros_bt_py/ros_bt_py/nodes/setters.py
+++ b/ros_bt_py/ros_bt_py/nodes/setters.py
@@ -110,7 +110,7 @@ class SetAttr(Leaf):
                 Ok(set_and_return(o, n, v))
                 for o in self.inputs.get_value("object")
                 for n in self.inputs.get_value_as("attr_name", str)
-                for v in self.inputs.get_value("value")
+                for v in self.inputs.get_value("attr_value")
             )
             .and_then(lambda val: self.outputs.set_value("new_object", val))
             .map(lambda _: BTNodeState.SUCCEEDED)
-- 
2.43.0


From fd6e99d20810a4c52c4c35c2aae81e56ce1c8ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:30 +0000
Subject: [PATCH 46/51] fix: Convert can be set up

---
 ros_bt_py/ros_bt_py/nodes/maths.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/maths.py b/ros_bt_py/ros_bt_py/nodes/maths.py
index 3afb7e8..2b0539a 100644
--- a/ros_bt_py/ros_bt_py/nodes/maths.py
+++ b/ros_bt_py/ros_bt_py/nodes/maths.py
@@ -91,17 +91,15 @@ class Convert(Leaf):
 
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         match do(
-            Ok((i, o, c))
+            Ok((i, o))
             for i in self.inputs.get_value_as("input_type", type)
             for o in self.inputs.get_value_as("output_type", type)
-            for c in self.inputs.get_value_as("clamp", bool)
         ):
             case Err(e):
                 return Err(e)
-            case Ok((i, o, c)):
+            case Ok((i, o)):
                 self.in_type = i
                 self.out_type = o
-                self.clamp = c
 
         match get_conversion(self.in_type, self.out_type):
             case Err(e):
-- 
2.43.0


From 81b57734953764fee0ae69e04d752e5bd88c5717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:30 +0000
Subject: [PATCH 47/51] fix: FormatStringList formats its strings instead of
 always failing

---
 ros_bt_py/ros_bt_py/nodes/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/format.py b/ros_bt_py/ros_bt_py/nodes/format.py
index eff1a1e..43ba89b 100644
--- a/ros_bt_py/ros_bt_py/nodes/format.py
+++ b/ros_bt_py/ros_bt_py/nodes/format.py
@@ -192,7 +192,7 @@ class FormatStringList(Leaf):
             return (
                 do(
                     Ok([myformatter.format(s, **d) for s in s_l])
-                    for s_l in self.inputs.get_value_as("format_strings", list[str])
+                    for s_l in self.inputs.get_value_as("format_strings", list)
                     for d in self.inputs.get_value_as("dict", dict)
                 )
                 .and_then(lambda val: self.outputs.set_value("formatted_strings", val))
-- 
2.43.0


From b3d810124af50ebfcd8d9c8afb28909b59bd77a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:30 +0000
Subject: [PATCH 48/51] fix: format strings apply the conversions s, r and a

---
 ros_bt_py/ros_bt_py/nodes/format.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/format.py b/ros_bt_py/ros_bt_py/nodes/format.py
index 43ba89b..f6f2b24 100644
--- a/ros_bt_py/ros_bt_py/nodes/format.py
+++ b/ros_bt_py/ros_bt_py/nodes/format.py
@@ -66,10 +66,7 @@ class ExtendedFormatter(Formatter):
             return str(value).capitalize()
 
         # Do the default conversion or raise error if no matching conversion found
-        super(ExtendedFormatter, self).convert_field(value, conversion)
-
-        # return for None case
-        return value
+        return super(ExtendedFormatter, self).convert_field(value, conversion)
 
 
 myformatter = ExtendedFormatter()
-- 
2.43.0


From ed6f8806127097463308c4ba2895e5e77ace5b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:17 +0000
Subject: [PATCH 49/51] fix: YamlList and YamlDict report files and packages
 that cannot be read

---
 ros_bt_py/ros_bt_py/nodes/file.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/file.py b/ros_bt_py/ros_bt_py/nodes/file.py
index 6c1ecf4..028996e 100644
--- a/ros_bt_py/ros_bt_py/nodes/file.py
+++ b/ros_bt_py/ros_bt_py/nodes/file.py
@@ -62,9 +62,12 @@ def load_file(path):
         file_path = path[len("file://") :]
     elif path.startswith("package://"):
         package_name = path[len("package://") :].split("/", 1)[0]
-        package_path = ament_index_python.get_package_share_directory(
-            package_name=package_name
-        )
+        try:
+            package_path = ament_index_python.get_package_share_directory(
+                package_name=package_name
+            )
+        except (LookupError, ValueError) as ex:
+            raise LoadFileError(f"Error finding package {package_name}: {str(ex)}")
         file_path = package_path + path[len("package://") + len(package_name) :]
     else:
         raise LoadFileError(
@@ -73,12 +76,14 @@ def load_file(path):
         )
     try:
         data_file = open(file_path, "r")
-    except IOError as ex:
+    except (IOError, ValueError) as ex:
         error_msg = f"Error opening file {file_path}: {str(ex)}"
         raise LoadFileError(error_msg)
     with data_file:
         try:
             data = yaml.safe_load(data_file)
+        except (IOError, ValueError, RecursionError) as ex:
+            raise LoadFileError(f"Error reading file {file_path}: {str(ex)}")
         except yaml.YAMLError as ex:
             raise LoadFileError(f"Yaml error in file {file_path}: {str(ex)}")
     return data
-- 
2.43.0


From bc34b93f2be207ec46006509a50587f1de714759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:17 +0000
Subject: [PATCH 50/51] fix: IterateList stops its child when the list becomes
 empty

---
 ros_bt_py/ros_bt_py/nodes/list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/list.py b/ros_bt_py/ros_bt_py/nodes/list.py
index 95bc03e..8e1727e 100644
--- a/ros_bt_py/ros_bt_py/nodes/list.py
+++ b/ros_bt_py/ros_bt_py/nodes/list.py
@@ -211,7 +211,7 @@ class IterateList(Decorator):
                     pass
         else:
             self.loginfo("Nothing to iterate, input list is empty")
-            return Ok(BTNodeState.SUCCEEDED)
+            return self._do_untick().map(lambda _: BTNodeState.SUCCEEDED)
 
         if len(self.children) == 0:
             self.counter += 1
-- 
2.43.0


From e04ca484aa1fe51bf0af9422caf3bad0778266e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:50 +0000
Subject: [PATCH 51/51] fix: Convert understands the types it is configured
 with

---
 ros_bt_py/ros_bt_py/nodes/maths.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/maths.py b/ros_bt_py/ros_bt_py/nodes/maths.py
index 2b0539a..46e3265 100644
--- a/ros_bt_py/ros_bt_py/nodes/maths.py
+++ b/ros_bt_py/ros_bt_py/nodes/maths.py
@@ -35,6 +35,8 @@ from typeguard import typechecked
 from ros_bt_py.vendor.result import Result, Ok, Err, do
 
 from ros_bt_py.data_types import (
+    GENERIC_TYPE_MAP,
+    IDENTIFIER_KEY,
     GenericType,
     ReferenceType,
     StringType,
@@ -45,6 +47,16 @@ from ros_bt_py.node import Leaf, define_bt_node
 from ros_bt_py.node_config import NodeConfig
 
 
+@typechecked
+def get_python_type(value: dict) -> type:
+    """Python type of the data described by the value of a generic type."""
+    return next(
+        python_type
+        for python_type, template in GENERIC_TYPE_MAP.items()
+        if template[IDENTIFIER_KEY] == value[IDENTIFIER_KEY]
+    )
+
+
 @typechecked
 def get_conversion(
     in_type: type, out_type: type
@@ -92,8 +104,8 @@ class Convert(Leaf):
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         match do(
             Ok((i, o))
-            for i in self.inputs.get_value_as("input_type", type)
-            for o in self.inputs.get_value_as("output_type", type)
+            for i in self.inputs.get_value_as("input_type", dict).map(get_python_type)
+            for o in self.inputs.get_value_as("output_type", dict).map(get_python_type)
         ):
             case Err(e):
                 return Err(e)
-- 
2.43.0

