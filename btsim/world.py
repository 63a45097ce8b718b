"""One simulated deployment: process under test + environment (clients, servers, disk) + recorded history."""
import hashlib
import json
import os
import re
import shutil
import uuid
from collections import defaultdict

from . import disk as disk_mod
from . import kernel, ros
from .kernel import MS, SEC, Kernel

NODE = "BehaviorTreeNode"
OPS = ("setup", "tick", "untick", "reset", "shutdown")
RECORD_IN = {"NameSwitch", "EnumSwitch", "Watch", "RepeatNoAutoReset", "TopicPublisher", "TopicSubscriber", "TopicMemorySubscriber", "FieldsToMessage", "Service", "Action"}
RECORD_OUT = {"GetTimeNow", "Service", "Action", "TopicSubscriber", "TopicMemorySubscriber", "FieldsToMessage"}
_booted = False
DOCS = {}
SRV = {}
_node_cls = None


def boot(repo="/repo"):
    """Patch everything, import the code under test once (before forking)."""
    global _booted, _node_cls
    if _booted:
        return
    _booted = True
    import array, asyncio, contextlib, copy, functools, importlib, inspect, itertools, json, math, operator, re  # noqa
    import concurrent.futures, tempfile, shutil, pathlib, numpy, yaml, jsonpickle, typeguard  # noqa
    import packaging.version  # noqa
    import rclpy, rclpy.action, rclpy.executors, rclpy.node, rclpy.task, rclpy.serialization  # noqa
    import rclpy.action.client, rclpy.timer, rclpy.impl.rcutils_logger  # noqa
    import ros_bt_py_interfaces.msg, ros_bt_py_interfaces.srv, std_srvs.srv, std_msgs.msg  # noqa
    import diagnostic_msgs.msg, ament_index_python  # noqa
    from . import stubs
    kernel.install()
    stubs.install()
    ros.install()
    disk_mod.install()
    import sys
    sys.pycache_prefix = "/nonexistent/btsim"      # never trust cached bytecode of the code under test
    import ros_bt_py.tree_node  # noqa
    pkg = os.path.dirname(os.path.realpath(ros_bt_py.__file__))
    for m in ("ros_bt_py.nodes", "ros_bt_py.ros_nodes", "btsim.testnodes"):
        importlib.import_module(m)
    import ros_bt_py.node
    _node_cls = ros_bt_py.node.Node
    from ros_bt_py.package_manager import PackageManager
    from ros_bt_py_interfaces.srv import GetAvailableNodes
    r = PackageManager.get_available_nodes(GetAvailableNodes.Request(), GetAvailableNodes.Response())
    for d in r.available_nodes:
        DOCS[d.node_class] = d
    _observe(_node_cls)
    kernel.install_preemption(pkg)
    import ament_index_python.packages as aip

    def share(name, *a, **k):
        w = ros.W
        if re.fullmatch("[a-zA-Z0-9][a-zA-Z0-9_-]+", name, re.ASCII) is None:
            raise ValueError(f"'{name}' is not a valid package name")
        if w is not None and name in w.packages:
            return w.packages[name]
        raise ament_index_python.PackageNotFoundError(f"package '{name}' not found, searching: []")

    def prefixes():
        return dict(ros.W.packages) if ros.W is not None else {}
    ament_index_python.get_package_share_directory = aip.get_package_share_directory = lambda package_name, *a, **k: share(package_name)
    ament_index_python.get_packages_with_prefixes = aip.get_packages_with_prefixes = prefixes
    rclpy.utilities.ament_index_python = ament_index_python
    real_import = importlib.import_module

    def import_module(name, package=None):
        """Importing holds real locks: it is one step of the simulation."""
        if kernel.current() is None:
            return real_import(name, package)
        return kernel.K.atomically(lambda: real_import(name, package))
    importlib.import_module = import_module


def _observe(node_cls):
    """Record begin/end of every node operation, for every node class, from outside."""
    for op in OPS:
        real = getattr(node_cls, op)

        def wrapper(self, *a, __real=real, __op=op, **k):
            w = ros.W
            if w is None or kernel.current() is None:
                return __real(self, *a, **k)
            return w.node_op(self, __op, __real, a, k)
        wrapper.__name__ = op
        wrapper.__wrapped__ = real
        setattr(node_cls, op, wrapper)


def srv_types():
    if SRV:
        return SRV
    import ros_bt_py_interfaces.srv as s
    from std_srvs.srv import SetBool
    SRV.update({
        "get_package_structure": s.GetPackageStructure, "get_folder_structure": s.GetFolderStructure,
        "save_tree": s.SaveTree, "get_storage_folders": s.GetStorageFolders, "get_available_nodes": s.GetAvailableNodes,
        "debug/set_collect_node_diagnostics": SetBool, "set_log_level": s.SetLogLevel, "add_node": s.AddNode,
        "add_node_at_index": s.AddNodeAtIndex, "remove_node": s.RemoveNode, "morph_node": s.MorphNode,
        "wire_data": s.WireNodeData, "unwire_data": s.WireNodeData, "control_tree_execution": s.ControlTreeExecution,
        "get_subtree": s.GetSubtree, "generate_subtree": s.GenerateSubtree, "debug/set_publish_subtrees": SetBool,
        "debug/set_publish_data": SetBool, "set_options": s.SetOptions, "move_node": s.MoveNode,
        "replace_node": s.ReplaceNode, "load_tree": s.LoadTree, "load_tree_from_path": s.LoadTreeFromPath,
        "clear": s.ClearTree, "reload": s.ReloadTree, "change_tree_name": s.ChangeTreeName})
    return SRV


CMD = dict(TICK_ONCE=1, TICK_PERIODICALLY=2, TICK_UNTIL_RESULT=3, STOP=4, RESET=5, SHUTDOWN=6,
           SETUP_AND_SHUTDOWN=7, DO_NOTHING=8)


def init_cmds():
    from ros_bt_py_interfaces.srv import ControlTreeExecution as C
    for k in list(CMD):
        CMD[k] = getattr(C.Request, k)


class Call:
    def __init__(self, **k):
        self.resp = self.t1 = self.s1 = self.started = self.ended = self.act = self.t_start = self.t_end = None
        self.thr = self.before = self.after = self.alone = self.states = None
        self.lost = False
        for a, b in k.items():
            setattr(self, a, b)

    def view(self):
        d = dict(n=self.n, client=self.client, srv=self.srv, op=self.op, t0=self.t0 / SEC)
        if self.resp is not None:
            d["t1"] = self.t1 / SEC
            for f in ("success", "error_message", "message", "tree_state", "file_path", "node_id"):
                if hasattr(self.resp, f):
                    d[f] = getattr(self.resp, f)
        else:
            d["unanswered"] = True
        return d


def matches(offered, asked):
    """DDS: a subscription matches publishers offering at least what it asks for."""
    def rel(q):
        return getattr(getattr(q, "reliability", 1), "value", 1) != 2           # anything but BEST_EFFORT

    def tl(q):
        return getattr(getattr(q, "durability", 2), "value", 2) == 1            # TRANSIENT_LOCAL
    return (rel(offered) or not rel(asked)) and (tl(offered) or not tl(asked))


class World:
    def __init__(self, sc):
        self.sc = sc
        self.k = Kernel(sc.get("sched_seed", 0), sc.get("limits"))
        plan = {}
        for act, file, n, stall in sc.get("plan", []):
            plan.setdefault(act, {}).setdefault(file, []).append((n, stall))
        self.k.plan = plan
        ros.W = self
        self.scratch = os.path.realpath(sc.get("_scratch") or f"/tmp/btsim.{os.getpid()}")
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch + "/store")
        self.scratch_b = self.scratch.encode()
        self.disk = disk_mod.Disk(self, self.scratch)
        for f in sc.get("disk", []):
            if "op" in f:
                self.disk.plan[f["op"]] = f
            else:
                self.disk.kindplan.append(f)
        self.disk.enabled = False
        for j in sc.get("clock", []):
            self.k.at(j["at"], lambda j=j: self.clock_jump(j["jump"]), proc=None)
        self.packages = {"simpkg": self.scratch + "/pkg"}
        self.params = dict(sc.get("ros_params", {}))
        self.executor = None
        self.node = None
        self.calls = []
        self.feeds = {}
        self.deliveries = []
        self.all_subs = []
        self.node_pubs = []
        self.srv_count = defaultdict(int)
        self.pubs = defaultdict(list)       # topic -> [(seq, now, bytes, type)]
        self.pub_types = {}
        self.pub_thr = {}                   # seq -> publishing thread
        self.alive_threads = set()
        self.scanned = 0
        self.refs = {}
        self.logs = []
        self.opstack = defaultdict(list)
        self.ops = []                       # node operations: dict
        self.proc_exits = []
        self.leaf = {}                      # leaf scripts
        self.leaf_n = defaultdict(int)
        self.topic_hooks = defaultdict(list)
        self.subs = []
        self.servers = {}
        self.action_servers = {}
        self.req_n = 0
        self.shutdown_flag = False
        self.main_up = False
        self.blocking_waits = []
        self.faults = defaultdict(int)
        self.created = defaultdict(int)
        self.incarnation = 0
        self.probes = defaultdict(int)
        self.violations = []
        self.inv = []
        self.observer_errors = []
        self.latency = sc.get("latency_ns", 200_000)
        self.op_serial = 0
        self.max_depth_overlap = 0
        self.ext_subs = sc.get("external_subs", {})
        self.abandoned = []
        self.state_hashes = set()
        self.act_clients = []
        self.goals = []
        self.srv_requests = []
        self.watched = None                 # names of the services around which the tree is looked at
        self.in_service = []

    def clock_jump(self, ns):
        self.k.wall_offset += ns
        self.k.rec("clock_jump", ns)
        self.faults["clock_jump"] += 1

    # -- violations -------------------------------------------------------------------------------------------
    def violation(self, cls, detail):
        self.violations.append((cls, detail))
        self.k.rec("VIOLATION", cls, detail)

    # -- process control --------------------------------------------------------------------------------------
    def ros_ok(self):
        return not self.shutdown_flag

    def start_process(self, params=None):
        from ros_bt_py.parameters import tree_node_parameters as tnp
        p = tnp.Params()
        d = dict(node_modules=["ros_bt_py.nodes", "ros_bt_py.ros_nodes", "btsim.testnodes"],
                 tree_storage_paths=[self.scratch + "/store"], show_traceback_on_exception=False,
                 diagnostics_frequency_hz=1.0)
        dt = dict(load_default_tree=False, tree_path="", load_default_tree_permissive=False, tick_frequency_hz=10.0,
                  control_command=CMD["TICK_PERIODICALLY"])
        d.update((params or self.sc.get("params") or {}))
        dt.update(d.pop("default_tree", {}))
        dt["tree_path"] = dt["tree_path"].replace("/disk", self.scratch)
        for k, v in d.items():
            setattr(p, k, v)
        q = type("DefaultTree", (), {})()
        for k, v in dt.items():
            setattr(q, k, v)
        p.default_tree = q
        tnp.ParamListener.current = p
        self.incarnation += 1
        self.main_up = False
        self.executor = ros.SimExecutor(self)
        self.node = None
        self.subs = []
        self.opstack.clear()
        import ros_bt_py.tree_node as tn
        proc = self.k.proc

        def main():
            self.k.begin_activity("main")
            try:
                tn.main([])
            except kernel.SimDeath:
                raise
            except BaseException as e:
                import traceback
                tb = "".join(traceback.format_exception(e))[-3000:]
                self.k.rec("process_exit", type(e).__name__, str(e)[:400], tb)
                self.proc_exits.append((self.k.now, type(e).__name__, str(e)[:400], tb))
            else:
                self.k.rec("process_exit", "return", "")
            self.k.end_activity()
        import io
        import contextlib
        self.disk.enabled = True
        self.k.spawn(f"main{self.incarnation}", main)
        _ = (proc, io, contextlib)

    def on_spin(self):
        self.main_up = True
        self.k.end_activity()
        self.k.rec("spinning")
        for t in getattr(self, "spin_waiters", []):
            self.k.make_ready(t, "spin")

    def on_create(self, kind):
        """Creating a ROS entity may fail (as when memory or DDS handles run out)."""
        n = self.created[kind]
        self.created[kind] += 1
        for f in self.sc.get("create", ()):
            if f["kind"] == kind and f["nth"] == n and self.main_up:
                self.faults["create_" + kind] += 1
                raise RuntimeError(f"injected failure to create a {kind}")

    def on_node(self, node):
        self.node = node

    def crash(self):
        """The process under test dies here (called from one of its own threads, or by the environment)."""
        self.faults["process_crash"] += 1
        self.k.rec("process_crash")
        me = kernel.current()
        mine = me is not None and me.proc == self.k.proc
        self.k.kill_process()
        self.main_up = False
        for c in self.calls:
            if c.resp is None and not c.lost:
                c.lost = True
                t = getattr(self, "waiting", {}).get(c.n)
                if t is not None:
                    self.k.make_ready(t, "lost")
        if mine:
            self.k.park_forever()

    # -- environment hooks called by ros.py --------------------------------------------------------------------
    def on_log(self, level, name, msg):
        if level in ("error", "fatal"):
            self.logs.append((self.k.now, level, name, str(msg)[:300]))

    def digest(self, text):
        return hashlib.md5(text.replace(self.scratch, "/disk").encode()).hexdigest()[:8]

    def on_publish(self, pub, data, text):
        seq = len(self.k.log)
        self.pubs[pub.topic].append((seq, self.k.now, data))
        self.pub_types[pub.topic] = pub.msg_type
        me = kernel.current()
        self.pub_thr[seq] = me.name if me is not None else None
        self.k.rec("pub", pub.topic, len(self.pubs[pub.topic]), self.digest(text))
        for h in self.topic_hooks.get(pub.topic, ()):
            h(seq, data)
        for s in list(self.subs):
            if s.topic == pub.topic and s.msg_type is pub.msg_type and matches(pub.qos, s.qos):
                self._deliver(s, data, self.latency)
        op = self.owner()
        if op:
            self.node_pubs.append((seq, op, pub, data))

    def msgs(self, topic):
        from rclpy.serialization import deserialize_message
        topic = self.full(topic)
        t = self.pub_types.get(topic)
        return [(s, n, deserialize_message(d, t)) for s, n, d in self.pubs.get(topic, [])]

    def last(self, topic, before=None):
        from rclpy.serialization import deserialize_message
        topic = self.full(topic)
        lst = self.pubs.get(topic, [])
        if before is not None:
            lst = [x for x in lst if x[0] < before]
        return deserialize_message(lst[-1][2], self.pub_types[topic]) if lst else None

    @staticmethod
    def full(topic):
        return f"/{NODE}/{topic[2:]}" if topic.startswith("~/") else topic

    def subscription_count(self, topic):
        return self.ext_subs.get(topic, 1)

    def on_subscribe(self, sub):
        self.subs.append(sub)
        self.k.rec("subscribe", sub.topic)
        sub.owner = self.owner()
        sub.s0, sub.s1 = len(self.k.log), None
        sub.queue = []
        self.all_subs.append(sub)
        for f in self.feeds.values():
            if f.last is not None and f.qos.durability == 1 and f.serves(sub):
                self._deliver(sub, f.last, self.latency)

    def subs_of(self, obj):
        """Every subscription a node has created."""
        return [s for s in self.all_subs if s.owner is not None and s.owner["obj"] is obj]

    def on_unsubscribe(self, sub):
        self.k.rec("unsubscribe", sub.topic)
        sub.s1 = len(self.k.log)
        if sub in self.subs:
            self.subs.remove(sub)

    def _deliver(self, sub, data, delay):
        from rclpy.serialization import deserialize_message
        depth = max(1, getattr(sub.qos, "depth", 10))

        def arrive():
            if sub.destroyed:
                return
            sub.queue.append(data)
            if len(sub.queue) > depth:
                sub.queue.pop(0)
                self.faults["message_loss"] += 1
                return

            def run():
                if sub.destroyed or not sub.queue:
                    return
                x = sub.queue.pop(0)
                msg = deserialize_message(x, sub.msg_type)
                self.k.rec("deliver", sub.topic, self.digest(repr(msg)))
                d = dict(sub=sub, data=x, s0=len(self.k.log) - 1, s1=None, w0=kernel.wall_ns(), w1=None)
                self.deliveries.append(d)
                sub.callback(msg)
                self.k.rec("delivered", sub.topic)
                d["s1"], d["w1"] = len(self.k.log), kernel.wall_ns()
            sub.node.sim_exec.enqueue(sub.group, run, ("sub", sub.topic))
        self.k.after(delay, arrive, proc=self.k.proc)

    def topic_names_and_types(self):
        return [(t, ["std_msgs/msg/String"]) for t in sorted(self.pubs)]

    def service_names_and_types(self):
        return [(s, ["std_srvs/srv/Trigger"]) for s in sorted(self.servers)]

    def action_names_and_types(self):
        return [(a, ["example_interfaces/action/Fibonacci"]) for a in sorted(self.action_servers)]

    class _Info:
        def __init__(self, qos):
            self.qos_profile = qos
            self.node_name = "env"
            self.topic_type = ""

    def publishers_info(self, topic):
        from rclpy.qos import QoSProfile
        infos = []
        for t, qos in getattr(self, "env_publishers", {}).items():
            if t == topic:
                infos.append(self._Info(qos or QoSProfile(depth=1)))
        return infos

    def on_blocking_wait(self, what, timeout):
        t = kernel.current()
        self.blocking_waits.append((self.k.now, what, timeout, t.name if t else "?"))

    # service servers of the environment (for service client nodes)
    def next_req(self):
        self.req_n += 1
        return self.req_n

    def sc_server_states(self, name, t0, t1):
        s = self.servers.get(name)
        return s.line.states(t0, t1) if s else {False}

    def server(self, name):
        return self.servers.get(name)

    def service_request(self, client, n, request, future):
        self.k.rec("srv_request", client.srv_name, n)
        rec = dict(n=n, name=client.srv_name, t=self.k.now, req=request, future=future, client=client,
                   answered=None, abandoned=False, seq=len(self.k.log), owner=self.owner(), d0=None, d1=None)
        self.srv_requests.append(rec)
        s = self.servers.get(client.srv_name)
        if s is not None:
            s.request(client, n, request, rec)

    def owner(self):
        """The node operation the current thread is in."""
        me = kernel.current()
        st = self.opstack.get(me.name) if me is not None else None
        return st[-1] if st else None

    def on_response(self, n, what):
        self.k.rec("srv_deliver", n, what)
        for r in self.srv_requests:
            if r["n"] == n:
                r[what] = len(self.k.log) - (what == "d0")
                r[what + "w"] = kernel.wall_ns()

    def on_abandon(self, client, n):
        self.k.rec("srv_abandon", client.srv_name, n)
        for r in self.srv_requests:
            if r["n"] == n:
                r["abandoned"] = True

    # actions
    def on_action_client(self, c):
        self.act_clients.append(c)

    def action_server_ready(self, name):
        s = self.action_servers.get(name)
        return s is not None and s.ready()

    def action_send_goal(self, client, goal, fb, future):
        g = dict(n=len(self.goals), name=client.action_name, t=self.k.now, goal=goal, fb=fb, send_future=future,
                 client=client, accepted=None, cancel_requested=[], result_future=None, owner=self.owner(),
                 seq=len(self.k.log), fbs=[])
        for x in "arc":
            g[x] = g[x + "0"] = g[x + "1"] = None
        self.goals.append(g)
        self.k.rec("goal_send", client.action_name, g["n"])
        s = self.action_servers.get(client.action_name)
        if s is not None:
            s.goal(g)

    def action_get_result(self, handle, future):
        g = self.goals[handle.gid]
        g["result_future"] = future
        g["server"].want_result(g, future)

    def action_cancel(self, handle, future):
        g = self.goals[handle.gid]
        g["cancel_requested"].append((len(self.k.log), self.owner()))
        self.k.rec("goal_cancel", g["n"])
        g["server"].cancel(g, future)

    # -- node operation observation -----------------------------------------------------------------------------
    def node_op(self, node, op, real, a, kw):
        t = kernel.current()
        st = self.opstack[t.name]
        self.op_serial += 1
        d = dict(i=self.op_serial, node=node.name, id=str(node.node_id), cls=type(node).__name__, op=op, thr=t.name,
                 depth=len(st), parent=st[-1]["i"] if st else None, t0=self.k.now, s0=len(self.k.log), t1=None, s1=None,
                 res=None, pre=str(node.state), obj=node, w0=kernel.wall_ns())
        if op == "tick" and d["cls"] in RECORD_IN:
            d["in"] = {k: (c.get_value().unwrap_or(None), c.is_updated()) for k, c in node.node_config.inputs.items()}
        self.k.rec("op+", d["i"], node.name, op, t.name)
        st.append(d)
        self.ops.append(d)
        self.observe(self.inv, self, d, "begin")
        try:
            r = real(node, *a, **kw)
        except BaseException as e:
            d["res"] = f"EXC:{type(e).__name__}"
            raise
        else:
            try:
                d["res"] = str(r.unwrap()) if r.is_ok() else f"ERR:{type(r.unwrap_err()).__name__}"
            except Exception:
                d["res"] = repr(r)
            return r
        finally:
            d["t1"] = self.k.now
            d["s1"] = len(self.k.log)
            d["post"] = str(node.state)
            d["w1"] = kernel.wall_ns()
            if op == "tick" and d["cls"] in RECORD_OUT:
                d["out"] = {k: c.get_value().unwrap_or(None) for k, c in node.node_config.outputs.items()}
            if st and st[-1] is d:
                st.pop()
            self.k.rec("op-", d["i"], node.name, op, d["res"], d["post"])
            if not st:
                self.note_state()
            self.observe(self.inv, self, d, "end")

    def observe(self, funcs, *a):
        """Run observers of the check; their failures are the check's own, never the code's."""
        for f in funcs:
            try:
                f(*a)
            except kernel.SimDeath:
                raise
            except Exception as e:  # noqa
                import traceback
                self.observer_errors.append("".join(traceback.format_exception(e))[-3000:])

    def manager(self):
        n = self.node
        return getattr(n, "tree_manager", None) if n is not None else None

    def note_state(self):
        m = self.manager()
        if m is not None and len(self.state_hashes) < 500:
            self.state_hashes.add(kernel.hash_str(m.state + "|" + ",".join(sorted(f"{n.name}={n.state}" for n in m.nodes.values()))))

    # -- clients --------------------------------------------------------------------------------------------------
    def call_async(self, srv, req, client="driver", op=None, on_done=None):
        """Send a service request to the process under test. Returns the Call."""
        typ = srv_types()[srv]
        k = self.k
        c = Call(n=len(self.calls), client=client, srv=srv, req=req, t0=k.now, s0=len(k.log), op=op)
        self.calls.append(c)
        k.rec("call", c.n, client, srv, _short(op))
        data = ros.copy_msg(req)

        def arrive():
            node = self.node
            if not self.main_up_or_created(node, srv):
                c.lost = True
                k.rec("call_lost", c.n)
                if on_done:
                    on_done("lost")
                return
            service = node.services_[node.resolve_service_name("~/" + srv)]
            proc = k.proc
            self.srv_count[srv] += 1
            act = f"{srv}#{self.srv_count[srv]}"
            c.act = act

            def run():
                c.started = len(k.log)
                c.t_start = k.now
                c.thr = kernel.current().name
                kernel.current().serving = c
                k.rec("serve", c.n, act)
                self.watch(c, "before")
                resp = service.callback(data, typ.Response())
                self.watch(c, "after")
                if not isinstance(resp, typ.Response):
                    raise TypeError(f"response of {srv} is {type(resp)}")
                out = ros.copy_msg(resp)
                c.ended = len(k.log)
                c.t_end = k.now
                k.rec("served", c.n)

                def back():
                    if k.proc != proc:
                        return
                    c.resp = out
                    c.t1 = k.now
                    c.s1 = len(k.log)
                    k.rec("response", c.n, srv, getattr(out, "success", None), getattr(out, "tree_state", None),
                          _short(getattr(out, "error_message", ""), 120))
                    if on_done:
                        on_done("resp")
                k.after(self.latency, back)
            service_exec = node.sim_exec
            service_exec.enqueue(service.group, run, ("service", act))
        k.after(self.latency, arrive, proc=None)
        return c

    def watch(self, c, when):
        """Look at the tree right before and after a request is served (only meaningful if no other edit is being served)."""
        if self.watched is None or c.srv not in self.watched:
            return
        from . import editmodel
        if when == "before":
            c.alone = not self.in_service
            for o in self.in_service:
                o.alone = False
            self.in_service.append(c)
        def look():
            setattr(c, when, editmodel.snapshot(self.manager()))
            if when == "after":
                c.states = {n.name: str(n.state) for n in self.manager().nodes.values()}
                self.in_service.remove(c)
        self.k.atomically(look)

    def main_up_or_created(self, node, srv):
        return node is not None and self.k.proc is not None and node.sim_exec is self.executor and \
            self.executor.spinner is not None and self.main_up and \
            node.resolve_service_name("~/" + srv) in node.services_

    def call(self, srv, req, client="driver", op=None, timeout=60 * SEC):
        me = kernel.current()
        if not hasattr(self, "waiting"):
            self.waiting = {}
        c = self.call_async(srv, req, client, op, on_done=lambda why: self.k.make_ready(me, why))
        self.waiting[c.n] = me
        if c.resp is None and not c.lost:
            self.k.block(timeout, ("call", c.n))
        self.waiting.pop(c.n, None)
        return c

    def wait_up(self, timeout=30 * SEC):
        end = self.k.now + timeout
        while not self.main_up and self.k.now < end and not self.proc_exits:
            self.k.sleep(5 * MS)
        return self.main_up

    def settle(self, ns=50 * MS, timeout=30 * SEC):
        """Until no request is in progress (or timeout)."""
        end = self.k.now + timeout
        self.k.sleep(ns)
        while self.k.now < end and (self.executor.busy() or any(c.resp is None and not c.lost for c in self.calls)):
            self.k.sleep(ns)

    def sleep(self, ns):
        self.k.sleep(ns)

    # -- results --------------------------------------------------------------------------------------------------
    def norm(self, s):
        return s.replace(self.scratch, "/disk")

    def log_hash(self):
        h = hashlib.sha256()
        for e in self.k.log:
            h.update(self.norm(repr(e)).encode())
        return h.hexdigest()[:16]

    def trace(self, n=400):
        out = []
        for e in self.k.log[-n:]:
            out.append(self.norm(f"{e[0]:5d} t={e[1] / SEC:.6f} " + " ".join(str(x) for x in e[2:])))
        return out


def _short(x, n=200):
    if isinstance(x, (dict, list)):
        x = json.dumps(x, sort_keys=True, default=str)
    x = str(x)
    return x if len(x) <= n else x[:n] + "..."


def uid(n):
    """Deterministic node ids for loaded trees."""
    return str(uuid.UUID(int=(0x1000 << 112) | n))
