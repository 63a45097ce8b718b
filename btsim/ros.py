"""Simulated ROS: node, executor, graph, services, topics, timers, actions.  The real rclpy message classes,
serialisation, Time/Duration, Future, Rate, callback groups and QoS are used."""
import sys

import rclpy
import rclpy.action
import rclpy.action.client
import rclpy.executors
import rclpy.logging
import rclpy.node
import rclpy.timer
import rclpy.utilities
from rclpy.callback_groups import MutuallyExclusiveCallbackGroup, ReentrantCallbackGroup
from rclpy.clock import ClockType
from rclpy.exceptions import InvalidHandle
from rclpy.impl.rcutils_logger import RcutilsLogger
from rclpy.qos import QoSDurabilityPolicy
from rclpy.serialization import deserialize_message, serialize_message
from rclpy.task import Future
from rclpy.time import Time

from . import kernel
from .kernel import SEC, SimThread

W = None  # the active World


def copy_msg(msg):
    """What crossing a process boundary does to a message."""
    t = type(msg)
    try:
        return deserialize_message(serialize_message(msg), t)
    except Exception:
        if "example_interfaces" in t.__module__:
            return t(**{k: getattr(msg, k) for k in t.get_fields_and_field_types()})
        raise


class SimLogger(RcutilsLogger):
    def __init__(self, name="sim"):
        self.name = name

    def __del__(self):
        pass

    def _log(self, level, msg, *a, **k):
        if W is not None:
            W.on_log(level, self.name, msg)

    def debug(self, msg="", *a, **k):
        pass

    def info(self, msg="", *a, **k):
        self._log("info", msg)

    def warning(self, msg="", *a, **k):
        self._log("warn", msg)

    warn = warning

    def error(self, msg="", *a, **k):
        self._log("error", msg)

    def fatal(self, msg="", *a, **k):
        self._log("fatal", msg)

    def log(self, msg="", level=None, *a, **k):
        self._log(str(level), msg)

    def get_child(self, name):
        return SimLogger(f"{self.name}.{name}")

    def set_level(self, level):
        pass

    def get_effective_level(self):
        return 20

    def is_enabled_for(self, s):
        return True


class SimClock:
    clock_type = ClockType.ROS_TIME

    def now(self):
        return Time(nanoseconds=kernel.wall_ns(), clock_type=ClockType.ROS_TIME)

    def sleep_for(self, duration, context=None):
        W.k.sleep(duration.nanoseconds)
        return True


class SimContext:
    def __init__(self):
        self.cbs = []

    def on_shutdown(self, cb):
        self.cbs.append(cb)

    def ok(self):
        return W.ros_ok()


class SimPublisher:
    def __init__(self, node, msg_type, topic, qos, group):
        self.node, self.msg_type, self.qos = node, msg_type, qos
        self.topic = self.topic_name = node.resolve_topic_name(topic)
        self.handle = object()
        self.destroyed = False
        node.resources.append(("publisher", self.topic, self))

    def publish(self, msg):
        if self.destroyed:
            raise InvalidHandle("cannot use Destroyable because destruction was requested")
        if isinstance(msg, bytes):
            data, text = msg, repr(msg)
        elif isinstance(msg, self.msg_type):
            data, text = serialize_message(msg), repr(msg)         # (padding inside the serialised form is arbitrary)
        else:
            raise TypeError(f"Expected {self.msg_type}, got {type(msg)}")
        W.on_publish(self, data, text)

    def get_subscription_count(self):
        return W.subscription_count(self.topic)

    def assert_liveliness(self):
        pass


class SimSubscription:
    def __init__(self, node, msg_type, topic, cb, qos, group):
        self.node, self.msg_type, self.qos, self.callback = node, msg_type, qos, cb
        self.topic = self.topic_name = node.resolve_topic_name(topic)
        self.group = group
        self.handle = object()
        self.destroyed = False
        node.resources.append(("subscription", self.topic, self))
        W.on_subscribe(self)


class SimService:
    def __init__(self, node, srv_type, name, cb, group):
        self.node, self.srv_type, self.callback, self.group = node, srv_type, cb, group
        self.srv_name = node.resolve_service_name(name)
        self.n = 0


class SimTimer:
    def __init__(self, node, period_ns, cb, group, clock, autostart=True):
        self.node, self.period, self.callback, self.group = node, period_ns, cb, group
        self.handle = object()
        self.cancelled = False
        self.destroyed = False
        self.pending = False
        self.next = W.k.now + self.period
        self.ev = None
        self._schedule()

    timer_period_ns = property(lambda s: s.period, lambda s, v: setattr(s, "period", v))

    def _schedule(self):
        if self.cancelled or self.destroyed:
            return
        proc = W.k.proc

        def fire():
            if self.cancelled or self.destroyed or W.k.proc != proc:
                return
            self.node.sim_exec.enqueue(self.group, self._run, ("timer", id(self)))
        self.ev = W.k.at(self.next, fire)

    def _run(self):
        if self.cancelled or self.destroyed:
            return
        # rcl_timer_call: advance by whole periods past "now"
        now = W.k.now
        self.next += self.period
        if self.next <= now:
            self.next += ((now - self.next) // self.period + 1) * self.period
        self._schedule()
        cb = self.callback
        if cb is not None:
            cb()

    def cancel(self):
        self.cancelled = True

    def reset(self):
        self.cancelled = False
        self.next = W.k.now + self.period
        self._schedule()

    def is_canceled(self):
        return self.cancelled

    def is_ready(self):
        return W.k.now >= self.next

    def time_until_next_call(self):
        return self.next - W.k.now

    def destroy(self):
        self.destroyed = True
        self.handle = None


class SimClient:
    def __init__(self, node, srv_type, name, qos, group):
        self.node, self.srv_type = node, srv_type
        self.srv_name = self.service_name = node.resolve_service_name(name)
        self.group = group
        self.destroyed = False
        self.handle = object()
        self.pending = {}
        node.resources.append(("client", self.srv_name, self))

    def _check(self):
        if self.destroyed:
            raise InvalidHandle("cannot use Destroyable because destruction was requested")

    def service_is_ready(self):
        self._check()
        return W.server(self.srv_name) is not None and W.server(self.srv_name).ready()

    def wait_for_service(self, timeout_sec=None):
        self._check()
        W.on_blocking_wait("wait_for_service", timeout_sec)
        end = None if timeout_sec is None else W.k.now + int(timeout_sec * SEC)
        while not self.service_is_ready():
            if end is not None and W.k.now >= end:
                return False
            W.k.sleep(SEC // 4 if end is None else min(SEC // 4, end - W.k.now))
        return True

    def call_async(self, request):
        self._check()
        if not isinstance(request, self.srv_type.Request):
            raise TypeError()
        f = Future()
        n = W.next_req()
        self.pending[n] = f
        W.service_request(self, n, copy_msg(request), f)
        return f

    def call(self, request, timeout_sec=None):
        f = self.call_async(request)
        ev = kernel.SimEvent()
        f.add_done_callback(lambda _: ev.set())
        W.on_blocking_wait("call", timeout_sec)
        ev.wait(timeout_sec)
        return f.result() if f.done() else None

    def remove_pending_request(self, future):
        for n, f in list(self.pending.items()):
            if f is future:
                del self.pending[n]
                W.on_abandon(self, n)

    def deliver(self, n, response):
        """A response arrived from the network."""
        if self.destroyed:
            return

        def run():
            f = self.pending.pop(n, None)
            if f is None or self.destroyed or f.cancelled():
                return
            W.on_response(n, "d0")
            f.set_result(copy_msg(response))
            W.on_response(n, "d1")
        self.node.sim_exec.enqueue(self.group, run, ("client", self.srv_name))

    def destroy(self):
        self.node.destroy_client(self)


class SimNode:
    """Replaces rclpy.node.Node."""

    def __init__(self, node_name, *, namespace=None, **kw):
        self._name = node_name
        self.context = SimContext()
        self.default_callback_group = self._default_group = MutuallyExclusiveCallbackGroup()
        self._rate_group = ReentrantCallbackGroup()
        self._clock = SimClock()
        self.resources = []
        self.timers_ = []
        self.services_ = {}
        self.destroyed = []
        self.sim_exec = W.executor
        self.bad_destroy = 0
        W.on_node(self)

    # names
    def get_name(self):
        return self._name

    def get_namespace(self):
        return "/"

    def get_fully_qualified_name(self):
        return "/" + self._name

    def resolve_topic_name(self, topic, *, only_expand=False):
        if topic.startswith("~/"):
            topic = f"/{self._name}/{topic[2:]}"
        elif not topic.startswith("/"):
            topic = "/" + topic
        base = topic.rstrip("/") if topic != "/" else topic
        from rclpy.validate_full_topic_name import validate_full_topic_name
        validate_full_topic_name(base)
        return base

    def resolve_service_name(self, service, *, only_expand=False):
        if service.startswith("~/"):
            service = f"/{self._name}/{service[2:]}"
        elif not service.startswith("/"):
            service = "/" + service
        from rclpy.validate_full_topic_name import validate_full_topic_name
        validate_full_topic_name(service, is_service=True)
        return service

    def get_logger(self):
        return SimLogger(self._name)

    def get_clock(self):
        return self._clock

    # graph
    def get_topic_names_and_types(self, no_demangle=False):
        return W.topic_names_and_types()

    def get_service_names_and_types(self):
        return W.service_names_and_types()

    def get_publishers_info_by_topic(self, topic, no_mangle=False):
        return W.publishers_info(self.resolve_topic_name(topic))

    def get_subscriptions_info_by_topic(self, topic, no_mangle=False):
        return []

    def count_publishers(self, topic):
        return len(W.publishers_info(self.resolve_topic_name(topic)))

    # entities
    def create_publisher(self, msg_type, topic, qos_profile=10, *, callback_group=None, **kw):
        W.on_create("publisher")
        return SimPublisher(self, msg_type, topic, qos_profile, callback_group or self._default_group)

    def create_subscription(self, msg_type, topic, callback, qos_profile=10, *, callback_group=None, raw=False, **kw):
        W.on_create("subscription")
        return SimSubscription(self, msg_type, topic, callback, qos_profile, callback_group or self._default_group)

    def create_service(self, srv_type, srv_name, callback, *, qos_profile=None, callback_group=None):
        s = SimService(self, srv_type, srv_name, callback, callback_group or self._default_group)
        self.services_[s.srv_name] = s
        return s

    def create_client(self, srv_type, srv_name, *, qos_profile=None, callback_group=None):
        W.on_create("client")
        return SimClient(self, srv_type, srv_name, qos_profile, callback_group or self._default_group)

    def create_timer(self, timer_period_sec, callback, callback_group=None, clock=None, autostart=True):
        t = SimTimer(self, max(1, int(timer_period_sec * SEC)), callback, callback_group or self._default_group, clock)
        self.resources.append(("timer", f"{timer_period_sec:.6g}", t))
        return t

    def create_rate(self, frequency, clock=None):
        if frequency <= 0:
            raise ValueError("frequency must be > 0")
        W.on_create("rate")
        timer = self.create_timer(1.0 / frequency, None, self._rate_group, clock)
        return rclpy.timer.Rate(timer, context=self.context)

    def _destroy(self, obj):
        for i, (kind, name, o) in enumerate(self.resources):
            if o is obj:
                del self.resources[i]
                obj.destroyed = True
                if kind == "subscription":
                    W.on_unsubscribe(obj)
                elif kind == "publisher":
                    W.k.rec("unpublish", name)
                return True
        self.bad_destroy += 1
        return False

    def destroy_publisher(self, p):
        return self._destroy(p)

    def destroy_subscription(self, s):
        return self._destroy(s)

    def destroy_client(self, c):
        return self._destroy(c)

    def destroy_service(self, s):
        return self.services_.pop(s.srv_name, None) is not None

    def destroy_timer(self, t):
        r = self._destroy(t)
        t.destroy()
        return r

    def destroy_rate(self, rate):
        ok_ = self.destroy_timer(rate._timer)
        rate.destroy()
        return ok_

    def destroy_node(self):
        pass

    # parameters
    def has_parameter(self, name):
        return name in W.params

    def get_parameter(self, name):
        from rclpy.parameter import Parameter
        return Parameter(name, value=W.params[name])

    def get_parameter_or(self, name, alternative=None):
        return self.get_parameter(name) if self.has_parameter(name) else alternative

    def declare_parameter(self, name, value=None, *a, **k):
        W.params.setdefault(name, value)
        return self.get_parameter(name)

    @property
    def executor(self):
        return None


class SimExecutor:
    """MultiThreadedExecutor: a pool of worker threads honouring callback groups."""

    def __init__(self, world):
        self.w = world
        self.k = world.k
        self.queue = []
        self.busy_groups = set()
        self.idle = []
        self.nthreads = 0
        self.error = None
        self.spinner = None
        self.active = 0
        self.stalled_until = 0

    def enqueue(self, group, fn, tag):
        excl = isinstance(group, MutuallyExclusiveCallbackGroup)
        self.queue.append((id(group) if excl else None, fn, tag, group))
        self._dispatch()

    def _dispatch(self):
        if self.idle and self.queue:
            self.k.make_ready(self.idle.pop(0), "work")

    def _take(self):
        for i, (g, fn, tag, grp) in enumerate(self.queue):
            if g is None or g not in self.busy_groups:
                del self.queue[i]
                return g, fn, tag
        return None

    def worker(self):
        me = kernel.current()
        while True:
            item = self._take()
            if item is None:
                self.idle.append(me)
                r = self.k.block(None, "idle")
                if r != "work" and me in self.idle:
                    self.idle.remove(me)
                continue
            g, fn, tag = item
            if g is not None:
                self.busy_groups.add(g)
            self.active += 1
            if tag[0] == "service":
                self.k.begin_activity(tag[1])
            elif tag[0] == "timer":
                self.k.begin_activity("timer")
            else:
                self.k.begin_activity(tag[0])
            try:
                fn()
            except BaseException as e:
                if isinstance(e, kernel.SimDeath):
                    raise
                self.k.end_activity()
                import traceback
                self.k.rec("callback_exception", str(tag[:2]), type(e).__name__, str(e)[:500],
                           "".join(traceback.format_exception(e))[-3500:])
                if self.error is None:
                    self.error = e
                    if self.spinner is not None:
                        self.k.make_ready(self.spinner, "error")
            else:
                self.k.end_activity()
            finally:
                self.active -= 1
                if g is not None:
                    self.busy_groups.discard(g)
            if self.queue:
                self._dispatch()

    def busy(self):
        return self.active > 0 or bool(self.queue)

    def start(self, n):
        self.nthreads = n
        for i in range(n):
            self.k.spawn(f"W{i}", self.worker)

    def spin(self):
        self.spinner = kernel.current()
        self.w.on_spin()
        while self.w.ros_ok():
            if self.error is not None:
                e, self.error = self.error, None
                raise e
            self.k.block(None, "spin")


class MultiThreadedExecutorStub:
    def __init__(self, num_threads=None, *, context=None):
        self.n = num_threads or 8

    def add_node(self, node):
        return True

    def spin(self):
        ex = W.executor
        if ex.nthreads == 0:
            ex.start(self.n)
        ex.spin()

    def shutdown(self, timeout_sec=None):
        return True

    def create_task(self, cb, *a, **k):
        W.executor.enqueue(None, lambda: cb(*a, **k), ("task", ""))


class SingleThreadedExecutorStub(MultiThreadedExecutorStub):
    def __init__(self, *, context=None):
        super().__init__(1)


# ---------------------------------------------------------------------------------------------- action client --
class SimGoalHandle:
    def __init__(self, client, gid, accepted):
        self.client, self.gid, self.accepted = client, gid, accepted
        self.goal_id = gid
        self.stamp = None
        self.status = 1
        self._result_future = None

    def get_result_async(self):
        self.client._check()
        f = Future()
        W.action_get_result(self, f)
        return f

    def cancel_goal_async(self):
        self.client._check()
        f = Future()
        W.action_cancel(self, f)
        return f

    def cancel_goal(self):
        f = self.cancel_goal_async()
        ev = kernel.SimEvent()
        f.add_done_callback(lambda _: ev.set())
        W.on_blocking_wait("cancel_goal", None)
        ev.wait()
        return f.result()


class SimActionClient:
    def __init__(self, node, action_type, action_name, *, callback_group=None, **kw):
        W.on_create("action_client")
        self.node, self.action_type = node, action_type
        self.action_name = node.resolve_topic_name(action_name)
        self.group = callback_group or node._default_group
        self.destroyed = False
        node.resources.append(("action_client", self.action_name, self))
        W.on_action_client(self)

    def _check(self):
        if self.destroyed:
            raise InvalidHandle("cannot use Destroyable because destruction was requested")

    def server_is_ready(self):
        self._check()
        return W.action_server_ready(self.action_name)

    def wait_for_server(self, timeout_sec=None):
        self._check()
        W.on_blocking_wait("wait_for_server", timeout_sec)
        end = None if timeout_sec is None else W.k.now + int(timeout_sec * SEC)
        while not self.server_is_ready():
            if end is not None and W.k.now >= end:
                return False
            W.k.sleep(SEC // 4)
        return True

    def send_goal_async(self, goal, feedback_callback=None, goal_uuid=None):
        self._check()
        if not isinstance(goal, self.action_type.Goal):
            raise TypeError()
        f = Future()
        W.action_send_goal(self, copy_msg(goal), feedback_callback, f)
        return f

    def destroy(self):
        self.node._destroy(self)


def on_group(client, fn):
    """Run fn as an executor callback of a client entity."""
    if client.destroyed:
        return
    client.node.sim_exec.enqueue(client.group, lambda: None if client.destroyed else fn(), ("client", ""))


def install():
    rclpy.node.Node = SimNode
    rclpy.executors.MultiThreadedExecutor = MultiThreadedExecutorStub
    rclpy.executors.SingleThreadedExecutor = SingleThreadedExecutorStub
    rclpy.utilities.ok = rclpy.ok = lambda **k: W.ros_ok() if W is not None else True
    rclpy.init = lambda **k: None
    rclpy.shutdown = lambda **k: None
    rclpy.try_shutdown = lambda **k: None
    rclpy.logging.get_logger = lambda name="": SimLogger(name)
    rclpy.action.ActionClient = rclpy.action.client.ActionClient = SimActionClient
    rclpy.action.get_action_names_and_types = lambda node: W.action_names_and_types()
    from rclpy.client import Client
    for c in (SimClient,):
        Client.register(c) if hasattr(Client, "register") else None
