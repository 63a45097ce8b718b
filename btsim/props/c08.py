"""C08 Tree topology stays well-formed under every edit history."""
from .. import base, editgen, editmodel

EDITS = base.EDITS


class EditProp(base.Session):
    """Random editing sessions."""
    nclients = (1,)
    control = 0.0
    query = 0.05
    nops = (3, 12)
    rule = "a run counts when at least one edit succeeded; distinct by the hash of its whole event log"
    weights = None

    def gen(self, rng, i):
        spec = editgen.gen_spec(rng, rng.randint(1, 8)) if rng.random() < 0.92 else None
        g = editgen.Gen(rng, spec)
        wir = editgen.gen_wirings(rng, spec, rng.randint(0, 4)) if spec else []
        g.wirings = list(wir)
        clients = []
        for c in range(rng.choice(self.nclients)):
            ops = []
            for _ in range(rng.randint(*self.nops)):
                x = rng.random()
                if x < self.control:
                    op = base.gen_control(rng)
                elif x < self.control + self.query and g.names:
                    op = rng.choice([{"op": "get_subtree", "n": g.any()}, {"op": "gen_subtree", "ns": [g.any()]}, {"op": "nodes"}])
                else:
                    op = g.op(self.weights)
                op["wait"] = base.wait_choice(rng, 0.1)
                ops.append(op)
            clients.append({"name": f"c{c + 1}", "ops": ops})
        return dict(tree=spec, wirings=wir, clients=clients, leaf={})

    def prepare(self, w, sc):
        super().prepare(w, sc)
        w.watched = EDITS

    def nontrivial(self, r):
        return r["stats"].get("edits_ok", 0) > 0 if "stats" in r else True

    def edits(self, w):
        for c in w.calls:
            if c.srv in EDITS and c.after is not None and c.resp is not None:
                ok = c.resp.success
                w.k.count("edits_ok" if ok else "edits_refused", 1)
                w.k.count(("ok_" if ok else "refused_") + c.srv, 1)
                yield c

    def finish(self, w, sc):
        w.settle()


class C08(EditProp):
    id = "C08"
    quick_total = 200
    nclients = (1, 1, 2, 3)
    control = 0.06

    def check(self, w, sc):
        if self.died(w):
            return
        for c in w.calls:
            if c.resp is None and not c.lost:
                w.violation("unanswered", f"{c.srv} was never answered")
                return
        for c in self.edits(w):
            if not c.alone:
                continue
            bad = editmodel.wellformed(c.after)
            if bad:
                w.violation("malformed", f"after {c.srv} ({'ok' if c.resp.success else 'refused'}): {bad[0]}")
                return
        m = w.manager()
        bad = editmodel.wellformed(editmodel.snapshot(m))
        if bad:
            w.violation("malformed", f"at the end: {bad[0]}")
            return
        # what the clients are shown must be well-formed, too
        for seq, now, lst in w.msgs("~/tree_structure_list"):
            for t in lst.tree_structures:
                bad = editmodel.wellformed(editmodel.from_msg(t))
                if bad or len({n.node_id for n in t.nodes}) != len(t.nodes):
                    w.violation("malformed_published", f"published structure: {bad[0] if bad else 'two nodes have the same id'}")
                    return


PROP = C08()
