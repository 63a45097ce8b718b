"""C04 Edits happen only while the tree is editable, one at a time."""
from .. import base, editgen, editmodel, execmodel
from ..base import EDITS
from .c08 import EditProp


def shape(w):
    m = w.manager()
    if m is None:
        return None
    return w.k.atomically(lambda: (
        tuple((str(i), type(n).__name__, n.name, tuple(str(c.node_id) for c in n.children)) for i, n in m.nodes.items()),
        tuple(editmodel.wkey(x) for x in m.wirings), m.name))


def watch_shape(w, d, phase):
    """While execution has begun and not ended, the tree must keep its shape."""
    if d["depth"]:
        return
    if phase == "begin":
        d["shape"] = shape(w)
    else:
        d["shape_after"] = shape(w)


class C04(EditProp):
    id = "C04"
    quick_total = 180
    nvariants = 2
    nclients = (2, 2, 3)
    nops = (3, 8)
    rule = "a run counts when at least one edit was answered; distinct by the hash of its whole event log"

    def nontrivial(self, r):
        return True

    def gen(self, rng, i):
        sc = super().gen(rng, i)
        if not sc.get("tree"):
            sc["tree"] = {"c": "Sequence", "n": "r", "ch": [{"c": "SimLeaf", "n": "a"}]}
            sc["wirings"] = []
        sc["leaf"] = base.gen_script(rng, sc["tree"], pd=0.5, teardown=0.3)
        # one client executes the tree again and again, with pauses in which it can be edited
        ops = []
        for _ in range(rng.randint(3, 8)):
            op = base.gen_control(rng, [4, 4, 3, 2, 2, 8, 2, 0])
            op["wait"] = base.wait_choice(rng, 0.5)
            ops.append(op)
        sc["clients"].append({"name": "x", "ops": ops})
        for cl in sc["clients"]:
            for op in cl["ops"]:
                op["wait"] = base.wait_choice(rng, rng.choice([0.02, 0.3, 1.0]))
        sc["hz"] = rng.choice([10.0, 50.0])
        return sc

    def prepare(self, w, sc):
        super().prepare(w, sc)
        w.watched = EDITS | {execmodel.CTRL}
        w.inv.append(watch_shape)

    def check(self, w, sc):
        if self.died(w):
            return
        calls, loops = execmodel.collect(w)
        list(self.edits(w))
        edits = [c for c in w.calls if c.srv in EDITS and c.ended is not None and c.after is not None]
        for c in w.calls:
            if c.resp is None and not c.lost:
                w.violation("unanswered", f"{c.srv} was never answered")
                return
        # (1) no edit is accepted in any other state than EDITABLE
        for c in edits:
            live = [x for x in loops.values() if x.spawn < c.started and (x.end is None or x.end > c.ended)]
            if c.resp.success and live:
                w.violation("edit_during_execution", f"{c.srv} was accepted while the tree was ticking")
                return
            if not c.alone:
                continue
            if c.resp.success and c.before["state"] != "EDITABLE":
                w.violation("edit_not_editable", f"{c.srv} was accepted in tree state {c.before['state']}")
                return
            if not c.resp.success and c.before["state"] != "EDITABLE":
                w.k.count("edits_refused_by_state", 1)
                d = editmodel.diff(editmodel.comparable(c.before), editmodel.comparable(c.after))
                if d:
                    w.violation("refused_changed", f"{c.srv} was refused in tree state {c.before['state']} but changed the tree: {d}")
                    return
                if not c.resp.error_message:
                    w.violation("no_reason", f"{c.srv} was refused without a reason")
                    return
        # (2) the tree keeps its shape from the beginning to the end of every piece of execution
        for x in loops.values():
            if self.same(w, x.ops, f"the tick loop of {x.owner.cmd if x.owner else '?'}"):
                return
        for c in calls:
            if self.same(w, c.ops, c.cmd) and not w.violations:
                return
            if w.violations:
                return
        # (3) overlapping accepted edits are equivalent to some serial order
        for cl in clusters(sorted([c for c in w.calls if (c.srv in EDITS or c.srv == execmodel.CTRL) and c.started is not None],
                                  key=lambda c: c.started)):
            if self.serial(w, cl):
                return

    def same(self, w, ops, who):
        if not ops:
            return False
        first = ops[0]["shape"]
        for o in ops:
            for k in ("shape", "shape_after"):
                if o.get(k) is not None and o[k] != first:
                    w.violation("tree_changed_under_execution", f"the tree was edited during {who} ({o['op']} of {o['node']})")
                    return True
        return False

    def serial(self, w, cl):
        acc = [c for c in cl if c.srv in EDITS and c.resp is not None and c.resp.success]
        if len(acc) < 2 or len(acc) > 5 or any(c.srv == "load_tree_from_path" for c in acc) or \
                any(c.srv == execmodel.CTRL and c.cmd in ("SHUTDOWN", "SETUP_AND_SHUTDOWN") for c in cl):
            return False
        before = cl[0].before
        last = max(cl, key=lambda c: c.ended)
        after = last.after
        wir = not any(c.srv in ("morph_node", "set_options", "load_tree", "reload") or getattr(c.req, "ignore_failure", False) for c in acc)
        w.k.count("clusters_checked", 1)
        w.k.count("clustered_edits", len(acc))

        def view(v):
            x = editmodel.comparable(v, inputs=False)
            if not wir:
                x["wirings"] = []
            return x
        goal = view(after)
        why = []

        def search(v, todo):
            if not todo:
                d = editmodel.diff(view(v), goal)
                if d is None:
                    return True
                why.append(d)
                return False
            lim = min(c.ended for c in todo)
            for c in todo:
                if c.started <= lim:
                    try:
                        v2 = editmodel.apply(v, c.srv, c.req, c.resp, after)
                    except editmodel.Inapplicable as e:
                        why.append(str(e))
                        continue
                    if search(v2, [x for x in todo if x is not c]):
                        return True
            return False
        if not search(before, acc):
            w.violation("not_serial", f"the overlapping edits {[c.srv for c in acc]} were all accepted, but no order of them gives the resulting tree "
                        f"(expected vs found: {why[0] if why else '?'})")
            return True
        return False


def clusters(calls):
    cur, end = [], None
    for c in calls:
        if cur and end is not None and c.started > end:
            yield cur
            cur, end = [], None
        cur.append(c)
        if c.ended is None:
            return
        end = c.ended if end is None else max(end, c.ended)
    if cur:
        yield cur


_ = editgen
PROP = C04()
