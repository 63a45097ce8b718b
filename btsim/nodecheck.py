"""Refinement check of the recorded node operations against the reference models in models.py."""
from . import models

BADSTATE = ("UNINITIALIZED", "SHUTDOWN", "BROKEN")


class N:
    """What the checker knows about one node."""

    def __init__(self, obj, opts):
        self.obj = obj
        self.id = str(obj.node_id)
        self.name = obj.name
        self.cls = type(obj).__name__
        self.children = []
        self.opt = opts
        self.inp = {}
        self.state = "UNINITIALIZED"
        self.fresh = True              # nothing happened since setup/reset
        self.can_execute = True
        self.model = None
        self.tainted = False           # an error or exception passed: no expectations until shut down


def static_options(obj):
    return {k: c.get_value().unwrap_or(None) for k, c in obj.node_config.inputs.items() if c.is_static}


def kind(res):
    return "EXC" if res.startswith("EXC") else "ERR" if res.startswith("ERR") else res


class Checker:
    """classes: node classes whose behaviour is judged (others are followed only to know their state)."""

    def __init__(self, w, classes=None):
        self.w = w
        self.classes = classes
        self.nodes = {}
        self.judged = 0
        self.count = {}

    def node(self, obj):
        n = self.nodes.get(id(obj))
        if n is None:
            n = self.nodes[id(obj)] = N(obj, static_options(obj))
            n.can_execute = self.can_execute(obj)
            n.children = [self.node(c) for c in obj.children]
            m = models.MODELS.get(n.cls)
            n.model = m(n) if m else None
        return n

    def can_execute(self, obj):
        if type(obj).__name__ == "SimPair":
            return True
        if not obj.children:
            return obj.name not in self.w.sc.get("cannot_execute", ())
        if type(obj).__name__ == "Optional":
            return True
        return all(self.can_execute(c) for c in obj.children)

    def bad(self, cls, d, what):
        self.w.violation(cls, f"{d['op']} of {d['cls']} {d['node']}: {what}")

    def run(self):
        ops = self.w.ops
        kids = {}
        for d in ops:
            if d["parent"] is not None:
                kids.setdefault(d["parent"], []).append(d)
        # children's operations end before their parent's: judge in order of ending, so states are up to date
        # for pre-states use the recorded ones.
        for d in sorted((d for d in ops if d["t1"] is not None), key=lambda d: d["s1"]):
            self.judge(d, kids.get(d["i"], []))
            if len(self.w.violations) > 5:
                return

    def judge(self, d, kids):
        n = self.node(d["obj"])
        n.state = d["pre"]
        n.inp = d.get("in", {})
        n.d, n.kids = d, kids
        n.w = self.w
        if not (self.classes is None or d["cls"] in self.classes) or n.model is None:
            self.follow(n, d)
            return
        self.judged += 1
        self.count[d["cls"]] = self.count.get(d["cls"], 0) + 1
        res = kind(d["res"])
        op = d["op"]
        ki = 0
        # states not allowing the operation: refused, nothing touched
        if op in ("tick", "untick", "reset") and d["pre"] in BADSTATE or \
                op == "setup" and d["pre"] not in ("UNINITIALIZED", "SHUTDOWN"):
            if res not in ("ERR", "EXC"):
                self.bad("illegal_state", d, f"accepted in state {d['pre']} with {d['res']}")
            if kids:
                self.bad("illegal_state", d, f"refused in state {d['pre']} but touched {kids[0]['node']}")
            return
        if op == "tick" and any(v[0] is None for v in n.inp.values()):
            if res not in ("ERR", "EXC") or kids:
                self.bad("unset_input", d, "an input has no value, but the node was executed")
            n.model_broken = True
            return
        g = getattr(n.model, op)()
        pend = []                       # remaining members of the current group: (child op, required)
        group = None
        cstate = {}
        val = None
        want = None
        failed = None
        try:
            step = g.send(None)
        except StopIteration as e:
            want, step = e.value, None
        for x in n.children:
            cstate[x.id] = self.pre_state(x, kids, d)
        for x in n.children:
            x.state = cstate[x.id]
        while step is not None:
            if step[0] in ("tick", "setup"):
                c = step[1]
                if ki >= len(kids):
                    self.bad("child_not_executed", d, f"did not {step[0]} its child {c.name}, result {d['res']} "
                             f"(children {self.desc(kids)})")
                    return
                k = kids[ki]
                if k["op"] != step[0] or k["obj"] is not c.obj:
                    self.bad("wrong_child_op", d, f"did {k['op']} of {k['node']} where {step[0]} of {c.name} was due "
                             f"(children {self.desc(kids)})")
                    return
                ki += 1
                c.state = k["post"]
                val = kind(k["res"])
                if val in ("ERR", "EXC"):
                    failed = k
                    break
            else:
                op_, todo = step[1], list(step[2])
                seen = set()
                while ki < len(kids) and kids[ki]["op"] == op_ and any(c.obj is kids[ki]["obj"] for c in todo) and \
                        kids[ki]["id"] not in seen:
                    k = kids[ki]
                    seen.add(k["id"])
                    ki += 1
                    c = next(c for c in todo if c.obj is k["obj"])
                    c.state = k["post"]
                    if kind(k["res"]) in ("ERR", "EXC"):
                        failed = k
                        if op_ != "shutdown":
                            break
                if failed is None or op_ == "shutdown" and kind(failed["res"]) == "ERR":
                    for c in todo:
                        if c.id not in seen and self.needs(c, op_, d):
                            self.bad("child_not_" + op_, d, f"left its child {c.name} (state {c.state}) without {op_} "
                                     f"(children {self.desc(kids)})")
                            return
                if failed is not None:
                    break
                val = None
            try:
                step = g.send(val)
            except StopIteration as e:
                want, step = e.value, None
        if failed is not None:
            if res not in ("ERR", "EXC"):
                self.bad("error_lost", d, f"reported {d['res']} although {failed['op']} of {failed['node']} ended with {failed['res']}")
            elif ki < len(kids) and op != "shutdown" and kids[ki]["op"] in ("tick", "setup"):
                self.bad("went_on_after_error", d, f"{kids[ki]['op']} of {kids[ki]['node']} after the error of {failed['node']}")
            return
        if ki < len(kids):
            k = kids[ki]
            self.bad("extra_child_op", d, f"did {k['op']} of {k['node']}, which is not documented here (children {self.desc(kids)}, result {d['res']})")
            return
        if res not in want:
            self.bad("wrong_result", d, f"ended with {d['res']} instead of {'/'.join(sorted(want))} (was {d['pre']}, children "
                     f"{self.desc(kids)}, options {n.opt})")
        elif res not in ("ERR", "EXC") and d["post"] not in want:
            self.bad("wrong_state", d, f"left the node in state {d['post']} after {d['res']}")
        self.follow(n, d)

    def follow(self, n, d):
        n.fresh = d["op"] in ("setup", "reset")

    def pre_state(self, x, kids, d):
        for k in kids:
            if k["obj"] is x.obj:
                return k["pre"]
        # untouched by this operation: its state is that after its last operation
        return self.last_state(x, d)

    def last_state(self, x, d):
        st = "UNINITIALIZED"
        for o in self.index().get(id(x.obj), ()):
            if o["s1"] is not None and o["s1"] <= d["s1"]:
                st = o["post"]
            else:
                break
        return st

    def index(self):
        if not hasattr(self, "_ix"):
            self._ix = {}
            for o in self.w.ops:
                self._ix.setdefault(id(o["obj"]), []).append(o)
        return self._ix

    def last_op(self, x, d):
        last = None
        for o in self.index().get(id(x.obj), ()):
            if o["s1"] is not None and o["s1"] <= d["s1"]:
                last = o
            else:
                break
        return last

    def needs(self, c, op, d):
        if op == "untick":
            return c.state not in ("IDLE", "PAUSED") + BADSTATE
        if op == "reset":
            o = self.last_op(c, d)
            return o is None or o["op"] not in ("reset", "setup") or c.state != "IDLE"
        if op == "shutdown":
            return c.state not in ("SHUTDOWN", "UNINITIALIZED")
        return True

    @staticmethod
    def desc(kids):
        return ", ".join(f"{k['op']} {k['node']}={k['res']}" for k in kids) or "none"


def run(w, classes=None):
    c = Checker(w, classes)
    c.run()
    for k, v in c.count.items():
        w.k.count("judged_" + k, v)
    return c
