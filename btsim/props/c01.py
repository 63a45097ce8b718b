"""C01 At most one operation runs in the tree at any time."""
from .. import base
from ..base import MS

DURS = [(0, 0, 0, 2 * MS, 20 * MS, 70 * MS, 250 * MS)] * 3 + [(0, 20 * MS, 250 * MS, 1500 * MS, 2500 * MS)]


def gen_edit(rng, names):
    k = rng.random()
    n = rng.choice(names)
    if k < 0.3:
        return {"op": "add_at", "c": "SimLeaf", "n": f"x{rng.randint(1, 99)}", "parent": n, "idx": rng.choice([-1, 0, 1])}
    if k < 0.45:
        return {"op": "remove", "n": n, "rc": rng.random() < 0.5}
    if k < 0.6:
        return {"op": "move", "n": n, "parent": rng.choice(names), "idx": rng.choice([-1, 0, 1])}
    if k < 0.7:
        return {"op": "morph", "n": n, "c": rng.choice(["Sequence", "Fallback", "SimLeaf"])}
    if k < 0.8:
        return {"op": "name", "name": f"t{rng.randint(1, 9)}"}
    if k < 0.9:
        return {"op": "reload"}
    return {"op": "clear"} if rng.random() < 0.4 else {"op": "get_subtree", "n": n}


def overlap_invariant(w, d, phase):
    if phase != "begin" or d["depth"] != 0:
        return
    for thr, st in w.opstack.items():
        if thr != d["thr"] and st:
            o = st[0]
            w.violation("overlap", f"{d['op']} of {d['node']} started while {o['op']} of {o['node']} was still running "
                        f"({act_of(w, d)} vs {act_of(w, o)})")


def act_of(w, d):
    return "tick loop" if d["thr"].startswith("T") else "request"


class C01(base.Session):
    id = "C01"
    quick_total = 260

    def gen(self, rng, i):
        spec = base.gen_tree(rng, rng.randint(1, 7))
        names = [s["n"] for s in base.T.names(spec)]
        clients = []
        for c in range(rng.choice([2, 2, 3])):
            ops = []
            for _ in range(rng.randint(2, 7)):
                op = base.gen_control(rng) if rng.random() < 0.85 else gen_edit(rng, names)
                op["wait"] = base.wait_choice(rng)
                ops.append(op)
            clients.append({"name": f"c{c + 1}", "ops": ops})
        return dict(tree=spec, leaf=base.gen_script(rng, spec, pd=0.5, teardown=0.3, durs=rng.choice(DURS)), clients=clients,
                    hz=rng.choice([5.0, 10.0, 20.0, 50.0]))

    def prepare(self, w, sc):
        super().prepare(w, sc)
        w.inv.append(overlap_invariant)

    def check(self, w, sc):
        # two execution threads alive at once
        alive = set()
        for e in w.k.log:
            if e[2] == "thread_start":
                if alive:
                    w.violation("two_loops", "a second tick thread was started while another was alive")
                alive.add(e[3])
            elif e[2] == "thread_end":
                alive.discard(e[3])
        if w.unanswered:
            w.probes["unanswered"] += 1
        self.died(w)


PROP = C01()
