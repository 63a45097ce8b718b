"""Deterministic simulation kernel.

Real OS threads run the code under test, but only the one holding the baton runs; every hand-over is decided here.
Virtual time, a discrete event queue, scheduled pre-emption at source-line granularity, and replacements for
threading / time / uuid / random.  Nothing in here reads a real clock or a real random source.
"""
import _thread
import heapq
import random as _real_random_mod
import sys
import threading as _threading
import time as _time
import types
import uuid as _uuid
from collections import deque

K = None  # the active kernel

_real = types.SimpleNamespace(
    Thread=_threading.Thread, Lock=_threading.Lock, RLock=_threading.RLock, Event=_threading.Event,
    Condition=_threading.Condition, Semaphore=_threading.Semaphore,
    BoundedSemaphore=_threading.BoundedSemaphore, Timer=_threading.Timer, Barrier=_threading.Barrier,
    current_thread=_threading.current_thread, get_ident=_threading.get_ident,
    time=_time.time, monotonic=_time.monotonic, perf_counter=_time.perf_counter, sleep=_time.sleep,
    time_ns=_time.time_ns, monotonic_ns=_time.monotonic_ns, perf_counter_ns=_time.perf_counter_ns,
    uuid4=_uuid.uuid4, uuid1=_uuid.uuid1,
)

MS = 1_000_000
SEC = 1_000_000_000
EPOCH = 1_700_000_000 * SEC  # wall clock value at virtual time zero

_by_ident = {}  # OS thread ident -> SimThread


def current():
    return _by_ident.get(_thread.get_ident())


class SimDeath(BaseException):
    """The simulated process died; unwinds nothing that matters."""


class SimThread:
    _n = 0

    def __init__(self, k, name, fn, proc=False):
        self.k = k
        self.name = name
        self.fn = fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.state = "new"
        self.waiters = []
        self.exc = None
        self.act = None          # activity key, e.g. "control_tree_execution#2"
        self.stalls = None       # pending (file, line-count) -> stall for this activity
        self.counts = None
        self.lines = 0
        self.line_now = 0
        self.token = 0
        self.wake_reason = None
        self.proc = k.proc if proc is False else proc
        self.blocked_on = None

    def start(self):
        self.state = "ready"
        self.k.ready.append(self)
        _thread.start_new_thread(self._boot, ())

    def _boot(self):
        ident = _thread.get_ident()
        _by_ident[ident] = self
        self.sem.acquire()
        try:
            self.fn()
        except SimDeath:
            pass
        except BaseException as e:  # noqa: an uncaught exception ends only this thread, as in CPython
            self.exc = e
            self.k.thread_died(self, e)
        self.state = "done"
        for w in self.waiters:
            self.k.make_ready(w, "join")
        self.waiters = []
        del _by_ident[ident]
        self.k.handoff()


class Kernel:
    def __init__(self, sched_seed=0, limits=None):
        global K
        self.now = 0
        self.seq = 0
        self.heap = []
        self.ready = deque()
        self.cur = None
        self.rng = _real_random_mod.Random(sched_seed) if sched_seed else None
        self.code_rng = _real_random_mod.Random(12345)
        self.uuid_n = 0
        self.log = []
        self.finished = None
        self.done_sem = _thread.allocate_lock()
        self.done_sem.acquire()
        self.total_lines = 0
        self.switches = 0
        self.events = 0
        self.preempts_fired = 0
        self.limits = dict(max_now=3600 * SEC, max_lines=6_000_000, max_events=400_000, act_lines=250_000)
        if limits:
            self.limits.update(limits)
        self.proc = 0
        self.plan = {}           # act -> {file: [(n, stall_ns), ...]}
        self.on_thread_died = None
        self.wall_offset = 0     # clock jump applied to wall clocks
        self.stats = {}
        self.drift_ppm = 0
        self.sched_trace = 0
        self.in_event = False
        self.livelock = None
        self.act_counts = []
        self.act_n = {}
        K = self

    # -- bookkeeping -----------------------------------------------------------------------------------------
    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def rec(self, *ev):
        self.log.append((len(self.log), self.now) + ev)

    def thread_died(self, t, e):
        import traceback
        tb = "".join(traceback.format_exception(e))
        self.rec("thread_died", t.name, type(e).__name__, str(e)[:300], tb[-3000:])
        if self.on_thread_died:
            self.on_thread_died(t, e)

    # -- events ----------------------------------------------------------------------------------------------
    def _ctx(self):
        if self.in_event is not False:
            return self.in_event
        t = current()
        return None if t is None else t.proc

    def at(self, when, fn, proc=False):
        """Schedule fn. An event belongs to the process that scheduled it (dies with it) unless proc=None."""
        self.seq += 1
        e = [max(when, self.now), self.seq, fn, self._ctx() if proc is False else proc]
        heapq.heappush(self.heap, e)
        return e

    def after(self, delay, fn, proc=False):
        return self.at(self.now + int(delay), fn, proc)

    @staticmethod
    def cancel(e):
        e[2] = None

    # -- scheduling ------------------------------------------------------------------------------------------
    def make_ready(self, t, reason=None):
        if t.state == "blocked":
            t.state = "ready"
            t.token += 1
            t.wake_reason = reason
            self.ready.append(t)

    def _pick(self):
        while True:
            while self.ready:
                if self.rng is not None and len(self.ready) > 1:
                    i = self.rng.randrange(len(self.ready))
                    self.ready.rotate(-i)
                    t = self.ready.popleft()
                    self.ready.rotate(i)
                else:
                    t = self.ready.popleft()
                if t.proc is not None and t.proc != self.proc:  # thread of a dead process: never runs again
                    continue
                return t
            if self.finished:
                return None
            if not self.heap:
                self.finish("deadlock")
                return None
            when, _, fn, proc = heapq.heappop(self.heap)
            if fn is None or (proc is not None and proc != self.proc):
                continue
            if when > self.limits["max_now"]:
                self.finish("time_limit")
                return None
            self.now = when
            self.events += 1
            if self.events > self.limits["max_events"]:
                self.finish("event_limit")
                return None
            self.in_event = proc
            try:
                fn()
            finally:
                self.in_event = False

    def handoff(self):
        """Give the baton away for good (thread end) or until resumed (park)."""
        nxt = None if self.finished else self._pick()
        if self.finished or nxt is None:
            self._release_controller()
            return None
        nxt.state = "running"
        self.cur = nxt
        self.switches += 1
        self.sched_trace = (self.sched_trace * 1000003 ^ hash_str(nxt.name)) & 0xFFFFFFFFFFFF
        return nxt.sem.release()

    def _release_controller(self):
        try:
            self.done_sem.release()
        except RuntimeError:
            pass

    def _yield(self, me):
        nxt = None if self.finished else self._pick()
        if nxt is me:
            me.state = "running"
            return
        if nxt is None:
            self._release_controller()
        else:
            nxt.state = "running"
            self.cur = nxt
            self.switches += 1
            self.sched_trace = (self.sched_trace * 1000003 ^ hash_str(nxt.name)) & 0xFFFFFFFFFFFF
            nxt.sem.release()
        me.sem.acquire()  # parked for ever if the run is over

    def finish(self, reason):
        if not self.finished:
            self.finished = reason

    def stop_here(self, reason):
        """Called by a sim thread: end the run and never return."""
        self.finish(reason)
        self._release_controller()
        me = current()
        if me is not None:
            while True:
                me.sem.acquire()

    def block(self, timeout=None, what=None):
        """Block the current sim thread until make_ready() or the timeout. Returns the wake reason (None=timeout)."""
        me = current()
        me.state = "blocked"
        me.wake_reason = None
        me.blocked_on = what
        tok = me.token
        ev = None
        if timeout is not None:
            def fire(me=me, tok=tok):
                if me.token == tok and me.state == "blocked":
                    self.make_ready(me, None)
            ev = self.after(max(0, timeout), fire)
        self._yield(me)
        if ev is not None:
            ev[2] = None
        return me.wake_reason

    def sleep(self, ns):
        me = current()
        if me is None:
            return
        self.block(int(ns), "sleep")

    def pause(self):
        """Go to the end of the run queue."""
        me = current()
        me.state = "ready"
        self.ready.append(me)
        self._yield(me)

    def spawn(self, name, fn, proc=False):
        t = SimThread(self, name, fn, proc)
        t.start()
        return t

    def kill_process(self):
        """Everything belonging to the current simulated process stops for ever, mid-instruction."""
        self.proc += 1

    def park_forever(self):
        """The calling thread belongs to a process that just died."""
        me = current()
        me.state = "dead"
        self._yield(me)
        while True:
            me.sem.acquire()

    def run(self, fn):
        """Run fn as the first sim thread from the (real) controller thread; returns when the run is over."""
        t = SimThread(self, "driver", fn, None)
        t.state = "running"
        self.cur = t
        _thread.start_new_thread(t._boot, ())
        t.sem.release()
        self.done_sem.acquire()
        return self.finished

    # -- activities and pre-emption --------------------------------------------------------------------------
    def begin_activity(self, act):
        me = current()
        if act in ("timer", "sub", "client", "task"):
            n = self.act_n[act] = self.act_n.get(act, 0) + 1
            act = f"{act}#{n}"
        me.act = act
        me.lines = 0
        me.counts = {}
        me.stalls = self.plan.get(act)
        if me.stalls:
            me.stalls = {f: sorted(v) for f, v in me.stalls.items()}
        else:
            me.stalls = None

    def end_activity(self):
        me = current()
        if me.counts is not None:
            if len(self.act_counts) < 400:
                self.act_counts.append((me.act, me.counts))
        me.act = None
        me.stalls = None
        me.counts = None

    def atomically(self, fn):
        """Run an observation of the checker without pre-emption points."""
        me = current()
        saved = me.counts, me.stalls
        me.counts = me.stalls = None
        try:
            return fn()
        finally:
            me.counts, me.stalls = saved

    def on_line(self, file):
        me = _by_ident.get(_thread.get_ident())
        if me is None:
            return
        self.total_lines += 1
        if me.line_now != self.now:
            me.line_now, me.lines = self.now, 0
        me.lines += 1
        if me.lines > self.limits["act_lines"] or self.total_lines > self.limits["max_lines"]:
            self.rec("livelock", me.name, me.act)
            self.livelock = (me.name, me.act)
            self.stop_here("livelock")
        c = me.counts
        if c is None:
            return
        n = c[file] = c.get(file, 0) + 1
        st = me.stalls
        if st is None:
            return
        lst = st.get(file)
        if lst and n >= lst[0][0]:
            _, stall = lst.pop(0)
            self.preempts_fired += 1
            self.rec("preempt", me.act, file, n, stall)
            if stall <= 0:
                self.pause()
            else:
                self.sleep(stall)


_hcache = {}


def hash_str(s):
    h = _hcache.get(s)
    if h is None:
        h = 0
        for ch in s:
            h = (h * 131 + ord(ch)) & 0xFFFFFFFF
        _hcache[s] = h
    return h


# ------------------------------------------------------------------------------------------------ primitives --
def self_proc(t):
    return t.k.proc


class SimLock:
    def __init__(self):
        self._owner = None
        self._locked = False
        self._waiters = deque()

    def acquire(self, blocking=True, timeout=-1):
        k, me = K, current()
        if k is None or me is None:
            if self._locked:
                return False
            self._locked = True
            return True
        if not self._locked:
            self._locked = True
            self._owner = me
            return True
        if self._owner is not None and self._owner.proc is not None and self._owner.proc != self_proc(me):
            self._owner = me      # lock of a dead process
            return True
        if not blocking:
            return False
        self._waiters.append(me)
        r = k.block(None if timeout is None or timeout < 0 else int(timeout * SEC), ("lock", self))
        if r == "lock":
            return True
        try:
            self._waiters.remove(me)
        except ValueError:
            pass
        return False

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        while self._waiters:
            t = self._waiters.popleft()
            if t.state == "blocked" and t.proc in (None, t.k.proc):
                self._owner = t
                t.k.make_ready(t, "lock")
                return
        self._locked = False
        self._owner = None

    def locked(self):
        return self._locked

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock:
    def __init__(self):
        self._lock = SimLock()
        self._count = 0
        self._who = None

    def acquire(self, blocking=True, timeout=-1):
        me = current()
        if me is not None and self._who is me:
            self._count += 1
            return True
        if me is None:
            self._count += 1
            return True
        r = self._lock.acquire(blocking, timeout)
        if r:
            self._who = me
            self._count = 1
        return r

    def release(self):
        me = current()
        if me is None:
            self._count -= 1
            return
        if self._who is not me:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._who = None
            self._lock.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._who is current()

    def _release_save(self):
        c = self._count
        self._count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


class SimCondition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else SimRLock()
        self._waiters = deque()
        self.acquire = self._lock.acquire
        self.release = self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        me = current()
        if me is None:
            return False
        self._waiters.append(me)
        if hasattr(self._lock, "_release_save"):
            saved = self._lock._release_save()
        else:
            saved = None
            self._lock.release()
        r = K.block(None if timeout is None else int(timeout * SEC), ("cond", self))
        if r != "cond":
            try:
                self._waiters.remove(me)
            except ValueError:
                pass
        if hasattr(self._lock, "_acquire_restore"):
            self._lock._acquire_restore(saved)
        else:
            self._lock.acquire()
        return r == "cond"

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else K.now + int(timeout * SEC)
        res = predicate()
        while not res:
            t = None
            if end is not None:
                t = (end - K.now) / SEC
                if t <= 0:
                    break
            self.wait(t)
            res = predicate()
        return res

    def notify(self, n=1):
        while n > 0 and self._waiters:
            t = self._waiters.popleft()
            if t.state == "blocked":
                K.make_ready(t, "cond")
                n -= 1

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class SimEvent:
    def __init__(self):
        self._flag = False
        self._waiters = []

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True
        ws, self._waiters = self._waiters, []
        for t in ws:
            if K is not None:
                K.make_ready(t, "event")

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        if self._flag:
            return True
        me = current()
        if me is None:
            return self._flag
        self._waiters.append(me)
        r = K.block(None if timeout is None else int(timeout * SEC), ("event", self))
        if r != "event":
            try:
                self._waiters.remove(me)
            except ValueError:
                pass
        return r == "event" or self._flag


class SimSemaphore:
    def __init__(self, value=1):
        self._c = SimCondition(SimLock())
        self._v = value

    def acquire(self, blocking=True, timeout=None):
        with self._c:
            if not blocking and self._v <= 0:
                return False
            ok = self._c.wait_for(lambda: self._v > 0, timeout)
            if ok:
                self._v -= 1
            return bool(ok)

    def release(self, n=1):
        with self._c:
            self._v += n
            self._c.notify(n)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimThreadFacade:
    """threading.Thread over the kernel."""
    _counter = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        SimThreadFacade._counter += 1
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self.name = name or f"Thread-{SimThreadFacade._counter}"
        self.daemon = bool(daemon)
        self._t = None

    @property
    def ident(self):
        return None if self._t is None else id(self._t)

    native_id = ident

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._t is not None:
            raise RuntimeError("threads can only be started once")
        k = K
        n = k.thread_n = getattr(k, "thread_n", 0) + 1
        label = f"T{n}"

        def body():
            k.begin_activity(f"thread#{n}")
            k.rec("thread_start", label)
            try:
                self.run()
            finally:
                k.end_activity()
                k.rec("thread_end", label)
        me = current()
        k.rec("thread_spawn", label, me.name if me else None)
        self._t = SimThread(k, label, body)
        self._t.start()

    def is_alive(self):
        return self._t is not None and self._t.state != "done"

    def join(self, timeout=None):
        if self._t is None:
            raise RuntimeError("cannot join thread before it is started")
        me = current()
        if self._t is me:
            raise RuntimeError("cannot join current thread")
        if self._t.state == "done":
            return
        self._t.waiters.append(me)
        K.block(None if timeout is None else int(max(0, timeout) * SEC), ("join", self._t.name))
        if me in self._t.waiters:
            self._t.waiters.remove(me)

    def setDaemon(self, d):
        self.daemon = d

    def isDaemon(self):
        return self.daemon

    def getName(self):
        return self.name


class SimTimerThread(SimThreadFacade):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__(target=function, args=args or (), kwargs=kwargs)
        self.interval = interval
        self.finished = SimEvent()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            super().run()
        self.finished.set()


class _Dummy:
    def __init__(self, t):
        self._t = t
        self.name = t.name
        self.daemon = True
        self.ident = id(t)

    def is_alive(self):
        return True


def _insim():
    return K is not None and current() is not None


def _cls(sim, real):
    """A factory choosing the simulated primitive (always, once installed)."""
    return sim


def wall_ns():
    return EPOCH + K.now + K.wall_offset


def install():
    """Patch threading/time/uuid/random. Must run before ros_bt_py is imported."""
    _threading.Thread = SimThreadFacade
    _threading.Lock = SimLock
    _threading.RLock = SimRLock
    _threading.Event = SimEvent
    _threading.Condition = SimCondition
    _threading.Semaphore = SimSemaphore
    _threading.BoundedSemaphore = SimSemaphore
    _threading.Timer = SimTimerThread
    _threading.current_thread = lambda: _Dummy(current()) if _insim() else _real.current_thread()
    _threading.get_ident = lambda: id(current()) if _insim() else _real.get_ident()
    _time.time = lambda: wall_ns() / SEC if _insim() else _real.time()
    _time.time_ns = lambda: wall_ns() if _insim() else _real.time_ns()
    _time.monotonic = lambda: K.now / SEC if _insim() else _real.monotonic()
    _time.monotonic_ns = lambda: K.now if _insim() else _real.monotonic_ns()
    _time.perf_counter = lambda: K.now / SEC if _insim() else _real.perf_counter()
    _time.perf_counter_ns = lambda: K.now if _insim() else _real.perf_counter_ns()
    _time.sleep = lambda s: K.sleep(int(s * SEC)) if _insim() else _real.sleep(s)

    def uuid4():
        if K is None:
            return _real.uuid4()
        K.uuid_n += 1
        return _uuid.UUID(int=(0xABCD << 112) | (4 << 76) | (2 << 62) | K.uuid_n)
    _uuid.uuid4 = uuid4
    _uuid.uuid1 = lambda *a, **k: uuid4()
    try:
        import queue
        import concurrent.futures.thread as cft
        cft.queue.SimpleQueue = queue._PySimpleQueue
    except Exception:
        pass


TOOL = 4
_files = {}
_keep = []


def install_preemption(root):
    """LINE events for code below `root` (the ros_bt_py package directory)."""
    mon = sys.monitoring
    root = root.rstrip("/") + "/"

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(root) and "/tests/" not in fn and not fn.startswith(root + "vendor"):
            if id(code) not in _files:
                _files[id(code)] = fn[len(root):-3]
                _keep.append(code)
                mon.set_local_events(TOOL, code, mon.events.LINE)
        return mon.DISABLE

    def line(code, no):
        k = K
        if k is not None:
            k.on_line(_files[id(code)])

    mon.use_tool_id(TOOL, "btsim")
    mon.register_callback(TOOL, mon.events.PY_START, start)
    mon.register_callback(TOOL, mon.events.PY_RESUME, start)
    mon.register_callback(TOOL, mon.events.LINE, line)
    mon.set_events(TOOL, mon.events.PY_START | mon.events.PY_RESUME)
