"""Simulated peers of the process under test: service servers, action servers, topic publishers."""
from . import ros
from .kernel import MS, SEC

LAT = 300_000


class Timeline:
    """Availability: up except in the given [from, to) intervals."""

    def __init__(self, w, spec, name):
        self.w = w
        self.down = [(a, b) for a, b in spec]
        self.name = name
        for a, b in self.down:
            w.k.at(a, lambda: (w.k.rec("env_down", name), w.faults.__setitem__("server_outage", w.faults["server_outage"] + 1)),
                   proc=None)
            w.k.at(b, lambda: w.k.rec("env_up", name), proc=None)

    def up(self, t=None):
        t = self.w.k.now if t is None else t
        return not any(a <= t < b for a, b in self.down)

    def epoch(self, t=None):
        t = self.w.k.now if t is None else t
        return sum(1 for a, b in self.down if a <= t)

    def states(self, t0, t1):
        out = {self.up(t0), self.up(t1)}
        for a, b in self.down:
            if t0 <= a <= t1 or t0 <= b <= t1:
                out |= {True, False}
        return out


class Feed:
    """A publisher of another process: messages at given times, each with its own network delay."""

    def __init__(self, w, topic, msg_type, items, reliable=True, latched=False):
        from rclpy.qos import QoSDurabilityPolicy, QoSProfile, QoSReliabilityPolicy
        self.w, self.topic, self.type = w, topic, msg_type
        self.qos = QoSProfile(depth=10, reliability=QoSReliabilityPolicy.RELIABLE if reliable else QoSReliabilityPolicy.BEST_EFFORT,
                              durability=QoSDurabilityPolicy.TRANSIENT_LOCAL if latched else QoSDurabilityPolicy.VOLATILE)
        self.last = None
        w.feeds[topic] = self
        for e in items:
            w.k.at(e["at"], lambda e=e: self.publish(e), proc=None)

    def serves(self, sub):
        from .world import matches
        return sub.topic == self.topic and sub.msg_type is self.type and matches(self.qos, sub.qos)

    def publish(self, e):
        from rclpy.serialization import serialize_message
        w = self.w
        data = serialize_message(self.type(data=e["v"]))
        self.last = data
        w.k.rec("feed", self.topic, e["v"])
        for s in list(w.subs):
            if self.serves(s):
                if e.get("drop") and getattr(s.qos.reliability, "value", 1) == 2:
                    w.faults["message_loss"] += 1
                    continue
                if e.get("d", 0) >= 20 * MS:
                    w.faults["message_delay"] += 1
                w._deliver(s, data, LAT + e.get("d", 0))
                if e.get("dup"):
                    w.faults["message_duplication"] += 1
                    w._deliver(s, data, 2 * LAT + e.get("d", 0))


class ServiceServer:
    """script: per request {"d": delay ns, "drop": bool, "dup": bool}, cycled."""

    def __init__(self, w, name, down=(), script=(), reply=None):
        self.w, self.name = w, name
        self.line = Timeline(w, down, name)
        self.script = list(script)
        self.n = 0
        self.reply = reply
        self.answers = {}            # request number -> response
        w.servers[name] = self

    def ready(self):
        return self.line.up()

    def request(self, client, n, req, rec):
        w = self.w
        e = self.script[self.n % len(self.script)] if self.script else {}
        i = self.n
        self.n += 1
        ep = self.line.epoch()
        if not self.line.up():
            w.faults["request_lost"] += 1
            return
        if e.get("drop"):
            w.faults["message_loss"] += 1
            return
        proc = w.k.proc
        rec["server"] = self
        resp = self.reply(i, req)
        if e.get("d", 0) > 100 * MS:
            w.faults["message_delay"] += 1

        def back():
            if w.k.proc != proc:
                return
            if self.line.epoch() != ep:
                w.faults["response_lost"] += 1
                return
            rec["answered"] = w.k.now
            rec["resp"] = resp
            w.k.rec("srv_response", self.name, n)
            client.deliver(n, resp)
        w.k.after(LAT + e.get("d", 0), back, proc=None)
        if e.get("dup"):
            w.faults["message_duplication"] += 1
            w.k.after(2 * LAT + e.get("d", 0), back, proc=None)


class Box:
    """A plain message-like object."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class ActionServer:
    """script: per goal {"accept": bool, "ad": acceptance delay, "rd": execution time, "status": "S"/"A"/"C", "fb": [delays], "fbd":
    [network delays], "resd": result delay, "cd": cancel response delay, "drop": any of "goal", "accept", "result", "cancel", "canceled",
    "ignore_cancel": bool}, cycled. The client's side of a goal g is recorded in g: a (acceptance), r (result), c (cancel response),
    each with the log positions before and after (a0, a1) and the wall clock (aw); fbs: [(number, before, after)]."""

    def __init__(self, w, name, action_type, down=(), script=()):
        self.w, self.name, self.type = w, name, action_type
        self.line = Timeline(w, down, name)
        self.script = list(script)
        self.n = 0
        w.action_servers[name] = self

    def ready(self):
        return self.line.up()

    def drop(self, g, what):
        if g["e"].get("drop") == what:
            self.w.faults["message_loss"] += 1
            return True
        return False

    def later(self, d, fn):
        if d > 100 * MS:
            self.w.faults["message_delay"] += 1
        self.w.k.after(d, fn, proc=None)

    def goal(self, g):
        w = self.w
        e = self.script[self.n % len(self.script)] if self.script else {}
        self.n += 1
        g.update(server=self, e=e, status=None, end=None, epoch=self.line.epoch(), proc=w.k.proc)
        for x in "arc":
            g[x + "0"] = g[x + "1"] = g[x] = None
        if not self.line.up():
            w.faults["request_lost"] += 1
            return
        if not self.drop(g, "goal"):
            self.later(LAT, lambda: self.arrive(g))

    def alive(self, g):
        return self.line.epoch() == g["epoch"] and self.w.k.proc == g["proc"]

    def arrive(self, g):
        w, e = self.w, g["e"]
        if not self.alive(g) or g["client"].action_type is not self.type:
            return
        ok = e.get("accept", True)

        def answer():
            if not self.alive(g):
                return
            g["accepted"] = ok
            g["t_acc"] = w.k.now
            w.k.rec("goal_accept", g["n"], ok)
            if ok:
                self.execute(g)
            else:
                w.faults["goal_rejected"] += 1
            if self.drop(g, "accept"):
                return
            h = ros.SimGoalHandle(g["client"], g["n"], ok)
            w.k.after(LAT, lambda: self.client_cb(g, lambda: self.resolve(g, "a", g["send_future"], h)), proc=None)
        self.later(e.get("ad", 0), answer)

    def client_cb(self, g, fn):
        if self.w.k.proc == g["proc"]:
            ros.on_group(g["client"], fn)

    def resolve(self, g, what, future, value):
        """In the client's process: complete a future."""
        if future.cancelled() or future.done():
            return
        log = self.w.k.log
        g[what] = value
        g[what + "0"] = len(log)
        self.w.k.rec("goal_resolve", g["n"], what)
        future.set_result(value)
        g[what + "1"] = len(log)

    def execute(self, g):
        w, e = self.w, g["e"]
        for i, d in enumerate(e.get("fb", [])):
            w.k.after(d, lambda i=i: self.feedback(g, i), proc=None)
        st = {"S": 4, "A": 6, "C": 5}[e.get("status", "S")]
        w.k.after(e.get("rd", 0), lambda: self.end(g, st), proc=None)

    def values(self, msg, n, i):
        """Unique contents of feedback number i / the result (i = None) of goal n."""
        i = 7 if i is None else 100 + i
        for f, t in msg.get_fields_and_field_types().items():
            setattr(msg, f, [n, i] if "sequence" in t else f"{n}-{i}" if t == "string" else n * 1000 + i)
        return msg

    def feedback(self, g, i):
        if not self.alive(g) or g["end"] is not None or g["fb"] is None:
            return
        ds = g["e"].get("fbd") or [0]

        def take():
            e = [i, len(self.w.k.log), None]
            g["fbs"].append(e)
            self.w.k.rec("goal_feedback", g["n"], i)
            g["fb"](Box(feedback=self.values(self.type.Feedback(), g["n"], i)))
            e[2] = len(self.w.k.log)
        self.later(LAT + ds[i % len(ds)], lambda: self.client_cb(g, take))

    def end(self, g, st):
        w = self.w
        if not self.alive(g) or g["end"] is not None:
            return
        g["end"] = w.k.now
        g["status"] = st
        if st != 4:
            w.faults["goal_aborted"] += 1
        w.k.rec("goal_end", g["n"], st)
        if g.get("want") is not None:
            self.send_result(g)

    def result(self, g):
        return self.values(self.type.Result(), g["n"], None)

    def want_result(self, g, future):
        """The client asks for the result. A server that was restarted does not know the goal."""
        def arrive():
            if self.w.k.proc != g["proc"] or not self.line.up():
                return
            if not self.alive(g):
                res = Box(status=0, result=self.type.Result())
                self.later(LAT, lambda: self.client_cb(g, lambda: self.resolve(g, "r", future, res)))
                return
            g["want"] = future
            if g["end"] is not None:
                self.send_result(g)
        self.later(LAT, arrive)

    def send_result(self, g):
        if not self.alive(g) or g.get("sent"):
            return
        g["sent"] = True
        if self.drop(g, "result"):
            return
        res = Box(status=g["status"], result=self.result(g))
        self.later(LAT + g["e"].get("resd", 0), lambda: self.client_cb(g, lambda: self.resolve(g, "r", g["want"], res)))

    def cancel(self, g, future):
        w, e = self.w, g["e"]

        def do():
            if w.k.proc != g["proc"] or not self.line.up():
                w.faults["request_lost"] += 1
                return
            if not self.alive(g) or g["end"] is not None or e.get("ignore_cancel"):
                resp = Box(return_code=2 if not self.alive(g) else 1, goals_canceling=[])
            else:
                resp = Box(return_code=0, goals_canceling=[g["n"]])
                w.k.after(e.get("cd", 0), lambda: self.end(g, 5), proc=None)
            if not self.drop(g, "canceled"):
                self.later(LAT + e.get("cd", 0), lambda: self.client_cb(g, lambda: self.resolve(g, "c", future, resp)))
        if not self.drop(g, "cancel"):
            self.later(LAT, do)


_ = (SEC,)
