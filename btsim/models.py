"""Executable reference models of the flow-control and decorator nodes.

A model is a generator: it yields what the node must do to its children next and receives what the child answered,
and finally returns the node's own result (a set of allowed results).
   ("tick", child)                     exactly this child is ticked
   ("all", op, children)               op on each of these children, in any order; children that need no such
                                       operation (see nodecheck.needs) may be left out
   ("may", op, child)                  op on that child or nothing
Child results are 'SUCCEEDED', 'FAILED', 'RUNNING', ...; an error result ends the model (handled by the checker)."""

S, F, R, I, P = "SUCCEEDED", "FAILED", "RUNNING", "IDLE", "PAUSED"
DONE = (S, F)


class M:
    """Reference behaviour common to all; per-node memory lives in self.m, see nodecheck."""

    def __init__(self, n):
        self.n = n               # nodecheck.N: children, inputs (static options), state
        self.init()

    def init(self):
        pass

    def setup(self):
        self.init()
        for c in self.n.children:
            yield "setup", c
        return {I}

    def untick(self):
        yield "all", "untick", self.n.children
        return {I, P}

    def reset(self):
        self.init()
        yield "all", "reset", self.n.children
        return {I}

    def shutdown(self):
        self.init()
        yield "all", "shutdown", self.n.children
        return {"SHUTDOWN"}


class Sequence(M):
    go, stop, empty, memory = S, F, S, False

    def init(self):
        self.pos = 0

    def tick(self):
        ch = self.n.children
        if not ch:
            return {self.empty}
        if self.n.state in DONE:
            self.pos = 0
            yield "all", "reset", ch
        for i in range(self.pos if self.memory else 0, len(ch)):
            r = yield "tick", ch[i]
            if r == self.go:
                continue
            if r == R:
                self.pos = i
            else:
                self.pos = 0
                yield "all", "untick", ch[i + 1:]
            return {r}
        self.pos = 0
        return {self.go}

    def untick(self):
        if self.memory and self.go == S:
            self.pos = 0
        return super().untick()


class MemorySequence(Sequence):
    memory = True


class Fallback(Sequence):
    go, stop, empty = F, S, F


class MemoryFallback(Fallback):
    memory = True


class NameSwitch(M):
    def chosen(self, ch):
        return [c for c in ch if c.name == self.n.inp["name"][0]]

    def tick(self):
        ch = self.n.children
        sel = self.chosen(ch)
        if not sel:
            yield "all", "untick", ch
            return {F}
        if self.n.state in DONE:
            yield "all", "reset", ch
        sel = sel[-1]
        yield "all", "untick", [c for c in ch if c is not sel]
        return {(yield "tick", sel)}


class EnumSwitch(NameSwitch):
    """The default type's constants hold their own names."""

    def chosen(self, ch):
        return [c for c in ch if c.name.split(".")[-1] == self.n.inp["case"][0]]


class Parallel(M):
    def needed(self):
        return self.n.opt["needed_successes"]

    def tolerated(self):
        return len(self.n.children) - self.needed()

    def setup(self):
        if len(self.n.children) < self.needed():
            return {"ERR"}
        return (yield from super().setup())

    def tick(self):
        ch = self.n.children
        if self.n.state in DONE:
            yield "all", "reset", ch
        res = []
        for c in ch:
            r = c.state
            if r not in DONE:
                r = yield "tick", c
            res.append(r)
        if res.count(S) >= self.needed():
            out = S
        elif res.count(F) > self.tolerated():
            out = F
        else:
            return {R}
        yield "all", "untick", [c for c, r in zip(ch, res) if r not in DONE]
        return {out}


class ParallelFailureTolerance(Parallel):
    def tolerated(self):
        return self.n.opt["tolerate_failures"]


class Deco(M):
    none = S

    def tick(self):
        if not self.n.children:
            return {self.none}
        c = self.n.children[0]
        r = yield "tick", c
        return (yield from self.after(c, r))

    def after(self, c, r):
        return {self.map(r)}
        yield

    def map(self, r):
        return r


class IgnoreFailure(Deco):
    def map(self, r):
        return S if r == F else r


class IgnoreRunning(Deco):
    none = F

    def map(self, r):
        return (S if self.n.opt["running_is_success"] else F) if r == R else r


class IgnoreSuccess(Deco):
    none = F

    def map(self, r):
        return F if r == S else r


class Inverter(Deco):
    def map(self, r):
        return {S: F, F: S}.get(r, r)


class UntilSuccess(Deco):
    again = (F,)
    final = None

    def after(self, c, r):
        if r in self.again:
            yield "all", "reset", [c]
            return {R}
        return {r}


class RepeatIfFail(UntilSuccess):
    pass


class RepeatUntilFail(UntilSuccess):
    again = (S,)


class RepeatAlways(UntilSuccess):
    again = (S, F)


class Retry(Deco):
    opt, again = "num_retries", F

    def init(self):
        self.count = 0

    def after(self, c, r):
        if r == self.again and self.count < self.n.opt[self.opt]:
            self.count += 1
            yield "all", "reset", [c]
            return {R}
        if r in DONE:
            self.count = 0
        return {r}


class Repeat(Retry):
    opt, again = "num_repeats", S


class RepeatNoAutoReset(Deco):
    def init(self):
        self.count = 0

    def tick(self):
        if self.n.inp["reset"][0]:
            self.count = 0
        if self.count >= self.n.opt["num_repeats"] or not self.n.children:
            return {S}
        c = self.n.children[0]
        r = yield "tick", c
        if r == S:
            self.count += 1
            yield "all", "reset", [c]
            return {R}
        return {r}

    def reset(self):
        if self.count < self.n.opt["num_repeats"]:
            yield "all", "reset", self.n.children
        return {I}


class Optional(Deco):
    def setup(self):
        self.on = [c for c in self.n.children if c.can_execute]
        for c in self.on:
            yield "setup", c
        return {I}

    def tick(self):
        if not self.on:
            return {S}
        return {(yield "tick", self.on[0])}

    def untick(self):
        yield "all", "untick", self.on
        return {I, P}

    def reset(self):
        yield "all", "reset", self.on
        return {I}


class Watch(Deco):
    def tick(self):
        if not self.n.children:
            return {S}
        c = self.n.children[0]
        if self.n.inp["watch"][1]:
            yield "all", "untick", [c]
        return {(yield "tick", c)}


class SimPair(M):
    def tick(self):
        r = S
        for c in self.n.children:
            r = yield "tick", c
        return {r}


class Leaf(M):
    """Anything without children: results are its own business, states are not."""

    def tick(self):
        return {S, F, R, "ASSIGNED", "UNASSIGNED", "ERR", "EXC"}
        yield

    def setup(self):
        return {I, "ERR", "EXC"}
        yield

    def untick(self):
        return {I, P, "ERR", "EXC"}
        yield

    def reset(self):
        return {I, "ERR", "EXC"}
        yield

    def shutdown(self):
        return {"SHUTDOWN", "ERR", "EXC"}
        yield



# -- time-based nodes: the clock reading happens somewhere within the operation, so elapsed times are intervals -------
def window(d, until=None):
    """Values the ROS clock can have shown during operation d (up to the begin of its child operation `until`)."""
    t1, w1 = (until["t0"], until["w0"]) if until else (d["t1"], d["w1"])
    dt = t1 - d["t0"]
    return min(d["w0"], w1 - dt), max(w1, d["w0"] + dt)


def after(win, since, secs, strict):
    """True / False / None: has the time passed?"""
    ns = secs * 1e9
    lo, hi = win[0] - since[1], win[1] - since[0]
    if strict:
        return True if lo > ns + 1 else False if hi <= ns - 1 else None
    return True if lo >= ns + 1 else False if hi < ns - 1 else None


class Wait(Leaf):
    def init(self):
        self.start = None

    def setup(self):
        self.init()
        return {I}
        yield

    def tick(self):
        win = window(self.n.d)
        first = self.start is None
        if first:
            self.start = win
        secs = self.n.opt["seconds_to_wait"]
        if secs == 0:
            # any clock reading is enough, unless the clock jumps back in between
            return {S} if self.n.d["w1"] >= self.n.d["w0"] else {S, R}
        a = after(win, self.start, secs, False)
        if first and self.n.d["w1"] - self.n.d["w0"] == self.n.d["t1"] - self.n.d["t0"] < secs * 1e9 - 1:
            a = False
        return {S} if a else {R} if a is False else {S, R}
        yield

    def untick(self):
        return {P, I}
        yield

    def reset(self):
        self.init()
        return {I}
        yield

    def shutdown(self):
        return {"SHUTDOWN"}
        yield


class WaitForService(Wait):
    def tick(self):
        d = self.n.d
        name = self.n.opt["service_name"]
        up = self.n.w.sc_server_states(name, d["t0"], d["t1"])   # set of availabilities within the tick
        out = set()
        if True in up:
            out.add(S)
        if False in up:
            win = window(d)
            if self.start is None:
                if True in up:
                    self.maybe = True
                self.start = win
                first = True
            else:
                first = False
            a = after(win, self.start, self.n.opt["wait_for_service_seconds"], True)
            if first and d["w1"] - d["w0"] == d["t1"] - d["t0"] <= self.n.opt["wait_for_service_seconds"] * 1e9 - 1:
                a = False
            if getattr(self, "maybe", False):
                a = None
            out |= {F} if a else {R} if a is False else {F, R}
        return out
        yield

    def init(self):
        self.start = None
        self.maybe = False

    def untick(self):
        self.init()
        return {P, I}
        yield


class GetTimeNow(Leaf):
    def tick(self):
        win = window(self.n.d)
        t = self.n.d["out"]["current_time"]
        if t is None:
            return {"an output"}
        v = t.sec * 1_000_000_000 + t.nanosec
        return {S} if win[0] <= v <= win[1] else {f"current time (off by {(v - win[0]) / 1e9:.3f} s)"}
        yield


class Throttle(Deco):
    def init(self):
        self.last = None
        self.result = F

    def due(self):
        kid = self.n.kids[0] if self.n.kids else None
        self.win = window(self.n.d, kid)
        if self.last is None:
            return True
        a = after(self.win, self.last, self.n.opt["tick_interval"], True)
        return kid is not None if a is None else a

    def tick(self):
        if not self.n.children or not self.due():
            return {self.result}
        c = self.n.children[0]
        r = yield "tick", c
        if r == R:
            return {R}
        self.last, self.result = self.win, r
        yield "all", "reset", [c]
        return {r}

    def reset(self):
        # the stored result survives a reset
        yield "all", "reset", self.n.children
        return {I}


class ThrottleSuccess(Throttle):
    def init(self):
        self.last = None

    def tick(self):
        if not self.n.children or not self.due():
            return {F}
        r = yield "tick", self.n.children[0]
        if r == S:
            self.last = self.win
        return {r}

    def reset(self):
        self.init()
        return (yield from super().reset())


TIMED = {c.__name__: c for c in (Wait, WaitForService, Throttle, ThrottleSuccess, GetTimeNow)}
MODELS = {c.__name__: c for c in (
    Sequence, MemorySequence, Fallback, MemoryFallback, NameSwitch, EnumSwitch, Parallel, ParallelFailureTolerance, IgnoreFailure,
    IgnoreRunning, IgnoreSuccess, Inverter, UntilSuccess, RepeatIfFail, RepeatUntilFail, RepeatAlways, Retry, Repeat,
    RepeatNoAutoReset, Optional, Watch, SimPair)}
MODELS.update(TIMED)
