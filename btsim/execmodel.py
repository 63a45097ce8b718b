"""The documented state machine of tree execution, judged over the recorded history of control requests.

Requests are served one at a time (a request that overlaps another one may be refused); between them the tick loop of an
earlier request may be running. For every served request the model knows the state it found (or the two states it may have
found, if the loop was just ending), and from that the only allowed answers, node operations and next states."""
from .base import EDITS

ED, ID, WA, ER, TI, SR = "EDITABLE", "IDLE", "WAITING_FOR_TICK", "ERROR", "TICKING", "STOP_REQUESTED"
STATES = {ED, ID, WA, ER, TI, SR}
CTRL = "control_tree_execution"
NAMES = {0: "DO_NOTHING", 1: "TICK_ONCE", 2: "TICK_PERIODICALLY", 3: "TICK_UNTIL_RESULT", 4: "STOP", 5: "RESET", 6: "SHUTDOWN",
         7: "SETUP_AND_SHUTDOWN"}
STARTING = {"TICK_ONCE", "TICK_PERIODICALLY", "TICK_UNTIL_RESULT"}
RES = {"SUCCEEDED", "FAILED"}


class Loop:
    def __init__(self, label):
        self.label, self.start, self.end, self.owner, self.ops, self.spawn = label, None, None, None, [], None
        self.t_end = None

    def alive(self, seq):
        return self.end is None or self.end > seq


def bad(op):
    return op["res"] is None or op["res"].startswith(("ERR", "EXC"))


def exc(op):
    return op["res"] is not None and op["res"].startswith("EXC")


def kind_of(snap):
    """normal / empty / strange (no unique root)"""
    n = snap["nodes"]
    if not n:
        return "empty"
    roots = [i for i, x in n.items() if x["parent"] is None]
    if len(roots) != 1:
        return "strange"
    return "normal"


def collect(w):
    """(control calls in the order they were served, loops by label)"""
    loops = {}
    for i, e in enumerate(w.k.log):
        if e[2] == "thread_spawn":
            x = loops[e[3]] = Loop(e[3])
            x.spawn = i
            x.by = e[4]
        elif e[2] == "thread_start" and e[3] in loops:
            loops[e[3]].start = i
        elif e[2] == "thread_end" and e[3] in loops:
            loops[e[3]].end = i
            loops[e[3]].t_end = e[1]
    calls = sorted((c for c in w.calls if c.srv == CTRL and c.started is not None), key=lambda c: c.started)
    for c in calls:
        c.cmd = NAMES.get(c.req.command, "unknown")
        c.ops = []
        c.loops = []
        hi = c.ended if c.ended is not None else 1 << 60
        for x in loops.values():
            if x.by == c.thr and c.started <= x.spawn <= hi:
                x.owner = c
                c.loops.append(x)
    spans = {}
    for c in calls:
        spans.setdefault(c.thr, []).append(c)
    for d in w.ops:
        if d["depth"]:
            continue
        if d["thr"] in loops:
            loops[d["thr"]].ops.append(d)
            continue
        for c in spans.get(d["thr"], ()):
            if c.started <= d["s0"] <= (c.ended if c.ended is not None else 1 << 60):
                c.ops.append(d)
    return calls, loops


def overlaps(w, c):
    """Other requests that may legitimately be in the way of c: other execution commands and edits."""
    hi = c.ended if c.ended is not None else 1 << 60
    out = []
    for o in w.calls:
        if o is c or o.started is None or not (o.srv == CTRL or o.srv in EDITS):
            continue
        if o.started <= hi and (o.ended is None or o.ended >= c.started):
            out.append(o)
    return out


def loop_outcome(x, stops, unfinished_ok=False):
    """(final state or None while running, complaint or None) of one tick loop."""
    c = x.owner
    ops = list(x.ops)
    done = x.end is not None
    names = [o["op"] for o in ops]

    def what(s):
        return None, f"the loop started by {c.cmd} {s} (operations: {' '.join(names[:12])})"
    if ops and ops[0]["op"] == "setup":
        if not ops[0]["pre"].endswith(("UNINITIALIZED", "SHUTDOWN")):
            return what(f"set up a root in state {ops[0]['pre']}")
        o = ops.pop(0)
        if bad(o):
            if ops:
                return what("went on after a failed setup")
            return (ER, None) if done else (None, None)
    elif ops and ops[0]["pre"].endswith(("UNINITIALIZED", "SHUTDOWN")):
        return what(f"operated on a root in state {ops[0]['pre']}")
    nt = 0
    while ops and ops[0]["op"] == "tick":
        o = ops.pop(0)
        nt += 1
        if bad(o):
            if ops:
                return what("went on after a failed tick")
            return (ER, None) if done else (None, None)
        if o["t1"] is None:
            return None, None
        if c.cmd == "TICK_ONCE":
            if ops:
                return what("did something after its only tick")
            if not done:
                return None, None
            return WA, None
        if c.cmd == "TICK_UNTIL_RESULT" and o["res"] in RES and ops and ops[0]["op"] == "tick":
            return what("kept ticking after a result")
    if not ops:
        if not done:
            return None, None
        if c.cmd == "TICK_ONCE":
            return what("did not tick")
        return what("ended without stopping the tree")
    o = ops.pop(0)
    if o["op"] != "untick" or ops:
        return what("did something unexpected")
    lastt = [p for p in x.ops if p["op"] == "tick"]
    result = lastt and lastt[-1]["res"] in RES
    stopped = any(s.started <= o["s0"] for s in stops if s is not c and (s.ended is None or s.ended > c.started))
    if not stopped and not (c.cmd == "TICK_UNTIL_RESULT" and result):
        return what("ended although nobody stopped it")
    if c.cmd == "TICK_ONCE":
        return what("stopped the tree")
    if bad(o):
        return (ER, None) if done else (None, None)
    return (ID, None) if done else (None, None)


def judge(w, cls="state_machine"):
    """Report every deviation from the state machine. Returns the list of (call, states before, states after)."""
    calls, loops = collect(w)
    n0 = len(w.violations)

    def bad_(c, s):
        if len(w.violations) - n0 < 3:
            w.violation(cls, f"{c.cmd}: {s}")

    stops = [c for c in calls if c.cmd in ("STOP", "SHUTDOWN", "SETUP_AND_SHUTDOWN")]
    for x in loops.values():
        if x.owner is None:
            w.violation(cls, "a tick loop was started by something that is not an execution command")
            return []
        x.final, why = loop_outcome(x, stops)
        if why:
            w.violation(cls, why)
            return []
    # Overlapping requests may have taken effect in any order consistent with their answers
    first = []

    def search(cur, todo, out):
        while todo:
            lim = min((c.ended if c.ended is not None else 1 << 60) for c in todo)
            cand = [c for c in todo if c.started <= lim]
            if len(cand) > 1:
                for c in cand:
                    o2 = list(out)
                    cur2 = served(w, c, cur, o2, first)
                    if cur2 is not None:
                        r = search(cur2, [x for x in todo if x is not c], o2)
                        if r is not None:
                            return r
                return None
            c = cand[0]
            cur = served(w, c, cur, out, first)
            if cur is None:
                return None
            todo = todo[1:]
        return out
    for c in calls:
        if c.resp is not None:
            if not c.resp.success and not c.resp.error_message:
                bad_(c, "was refused or failed without an explanation")
            if c.resp.tree_state not in STATES:
                bad_(c, f"answered with the tree state {c.resp.tree_state!r}")
    out = search({ED}, calls, [])
    w.exec_loops = loops
    if out is None:
        w.violation(cls, first[0])
        return []
    return out


def served(w, c, cur, out, first):
    """States after c was served in one of the states `cur`; None if that is impossible."""
    busy = overlaps(w, c)
    if c.resp is None:
        out.append((c, cur, None))
        # not answered (or answer lost with the process): its effects are unknown
        return set(STATES) | set(c.loops)
    ok, st, msg = c.resp.success, c.resp.tree_state, c.resp.error_message
    none = not c.ops and not c.loops
    if not ok and none and busy:
        out.append((c, cur, cur))
        return cur          # refused because something else was in progress
    # the states it may have found
    found = set()
    for s in cur:
        if isinstance(s, Loop):
            if s.end is not None and s.end < c.started:
                found.add(s.final)
            else:
                found.add(s)
                if s.final is not None and s.end is not None and (c.ended is None or s.ops and last_seq(s) < c.ended):
                    found.add(s.final)
        else:
            found.add(s)
    kinds = {kind_of(s) for s in (c.before, c.after) if s is not None}
    got = set()
    why = []
    for s in sorted(found, key=show):
        for kind in sorted(kinds):
            r, y = step(c, s, kind, ok, st)
            got |= r
            if not r:
                why.append(f"in state {show(s)} ({kind} tree): {y}")
    if not got:
        first.append(f"{c.cmd}: " + "; ".join(dict.fromkeys(why)) +
                     f" [success={ok}, state={st}, operations={[o['op'] for o in c.ops]}, message={msg[:80]!r}]")
        return None
    out.append((c, found, got))
    return got


def last_seq(x):
    return max((o["s1"] or 0 for o in x.ops), default=0)


def show(s):
    return f"TICKING ({s.owner.cmd})" if isinstance(s, Loop) else s


def step(c, s, kind, ok, st):
    """Possible states after c was served in state s (empty: what was observed is not allowed), and why not."""
    no = set()
    ops = [o["op"] for o in c.ops]
    cmd = c.cmd

    def need(cond, res, why):
        return (res, "") if cond else (no, why)
    none = not c.ops and not c.loops
    if isinstance(s, Loop):
        # running; if it ends while c is being served the caller also tries its final state
        if cmd in ("STOP", "SHUTDOWN"):
            f = s.final
            if s.end is None or c.ended is None or s.end > c.ended:
                # it may refuse to wait for a loop that is already finishing, but never claim success
                return need(not ok and none, {s}, "claims to have stopped although the loop is still running")
            if f == ER:
                return need(not ok and none and st == ER, {ER}, "the loop failed, so the stop has to fail in state ERROR")
            if f == ID:
                if cmd == "STOP":
                    return need(ok and none and st == ID, {ID}, "the loop stopped, so the answer must be success in state IDLE")
                return shutdown(c, c.ops, kind, ok, st, ID)
            return need(not ok and none, {f}, "unexpected answer")
        # starting, resetting, setting up, doing nothing or an unknown command during execution
        if cmd == "DO_NOTHING":
            return need(none, {s}, "has an effect during execution")
        allowed = {TI, s.final} if s.final else {TI, SR}
        return need(not ok and none and st in allowed, {s}, "must be refused during execution without effect")
    if s == ER and cmd != "SHUTDOWN":
        return need(not ok and none and st == ER, {ER}, "only SHUTDOWN is allowed in state ERROR")
    if cmd == "DO_NOTHING":
        return need(ok and none and st == s, {s}, "must succeed without effect")
    if cmd == "unknown":
        return need(not ok and none and st == s, {s}, "an unknown command must be refused without effect")
    if cmd in STARTING:
        if kind == "empty":
            return need(ok and none and st == s, {s}, "with an empty tree there is nothing to execute")
        if kind == "strange":
            return need(not ok and none and st == s, {s}, "a tree without a unique root must be refused")
        if len(c.loops) != 1 or c.ops:
            return no, "must start exactly one tick loop"
        x = c.loops[0]
        if cmd == "TICK_ONCE":
            if x.end is None or x.end > c.ended:
                return no, "answered before its tick had ended"
            if x.final == WA:
                return need(ok and st == WA, {WA}, "the tick was fine, so the answer must be success in state WAITING_FOR_TICK")
            return need(not ok and st == ER, {ER}, "the tick failed, so the answer must be failure in state ERROR")
        return need(ok and st in ({TI} | ({x.final} if x.final and last_seq(x) <= c.ended else set())), {x},
                    "must start ticking and answer with success in state TICKING")
    if cmd == "RESET":
        if kind == "empty":
            return need(ok and none and st == ID, {ID}, "resetting an empty tree must succeed")
        if kind == "strange":
            return need(not ok and none and st == s, {s}, "a tree without a unique root must be refused")
        if ops != ["reset"]:
            return no, "must reset the root once"
        o = c.ops[0]
        if exc(o):
            return need(not ok and st == ER, {ER}, "a node raised, so it must fail in state ERROR")
        if bad(o):
            return need(not ok and st == s, {s}, "the reset failed, so it must fail")
        return need(ok and st == ID, {ID}, "must succeed in state IDLE")
    if cmd == "SETUP_AND_SHUTDOWN":
        if kind == "strange":
            return need(not ok and none and st == s, {s}, "a tree without a unique root must be refused")
        rest = c.ops
        if kind == "normal" and rest and rest[0]["op"] == "setup":
            if not rest[0]["pre"].endswith(("UNINITIALIZED", "SHUTDOWN")):
                return no, "set up a root that was set up already"
            if bad(rest[0]):
                return need(not ok and st == ER and len(rest) == 1, {ER}, "the setup failed, so it must fail in state ERROR")
            rest = rest[1:]
        elif rest and rest[0]["pre"].endswith(("UNINITIALIZED", "SHUTDOWN")):
            return no, "did not set up the tree"
        return stop_shutdown(c, rest, kind, ok, st, s)
    if cmd == "SHUTDOWN":
        return stop_shutdown(c, c.ops, kind, ok, st, s)
    # STOP
    if s == WA:
        if kind == "empty":
            return need(ok and none and st == ID, {ID}, "must succeed in state IDLE")
        if kind == "strange":
            return need(not ok and none, {s}, "must fail")
        if ops != ["untick"]:
            return no, "must untick the root once"
        if bad(c.ops[0]):
            return need(not ok and st == ER, {ER}, "the untick failed, so it must fail in state ERROR")
        return need(ok and st == ID, {ID}, "must succeed in state IDLE")
    return need(not ok and none and st == s, {s}, "a tree that is not running cannot be stopped")


def stop_shutdown(c, ops, kind, ok, st, s):
    if s == WA:
        if kind == "strange":
            return (set(), "must fail") if ok or ops else ({s}, "")
        if kind == "normal":
            if not ops or ops[0]["op"] != "untick":
                return set(), "must untick the root first"
            if bad(ops[0]):
                if not ok and st == ER and len(ops) == 1:
                    return {ER}, ""
                return set(), "the untick failed, so it must fail in state ERROR"
            ops = ops[1:]
        s = ID
    return shutdown(c, ops, kind, ok, st, s)


def shutdown(c, ops, kind, ok, st, s):
    names = [o["op"] for o in ops]
    if kind != "normal":
        return ({ED}, "") if ok and not names and st == ED else (set(), "must succeed in state EDITABLE")
    if names != ["shutdown"]:
        return set(), "must shut the root down once"
    if exc(ops[0]):
        return ({ER}, "") if not ok and st == ER else (set(), "a node raised, so it must fail in state ERROR")
    if bad(ops[0]):
        return ({s}, "") if not ok and st == s else (set(), "the shutdown failed, so it must fail and leave the state")
    return ({ED}, "") if ok and st == ED else (set(), "must succeed in state EDITABLE")
