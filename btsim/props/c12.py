"""C12 Loading a bad or unreadable tree fails cleanly."""
import copy

from .. import badtree, base, editgen, editmodel, storage
from ..base import MS
from .c09 import full

PATHS = ["", "file://", "file:///disk/store", "file:///disk/store/", "file:///disk/store/none.yaml", "/disk/store/good.yaml", "http://x/y", "file:/x", "File:///x",
         "package://", "package:///x.yaml", "package://nopkg/x.yaml", "package://simpkg/none.yaml", "package://simpkg", "package://simpkg/", "package://sim pkg/x",
         "package://../x", "file:///dev/null", "file://relative.yaml", "file:///disk/store/good.yaml/", "file:///disk/store/good.yaml/x", "file://\x7f",
         "file:///disk/" + "n" * 300, " file:///disk/store/good.yaml", "file:///disk/store/../store/none.yaml", "package://simpkg/../../none.yaml"]
AFTER = ["TICK_ONCE", "TICK_PERIODICALLY", "STOP", "SHUTDOWN", "RESET", "TICK_UNTIL_RESULT"]


class C12(base.Session):
    id = "C12"
    quick_total = 200
    nvariants = 1
    rule = "a run counts when at least one request to load a bad tree was answered"
    shrink_lists = ["clients", "clients.*.ops", "files", "plan", "disk"]

    def nontrivial(self, r):
        return r["extra"].get("bad_loads", 0) + r["extra"].get("odd_loads", 0) > 0

    def gen(self, rng, i):
        def spec():
            s = editgen.gen_spec(rng, rng.randint(1, 7))
            return s, editgen.gen_wirings(rng, s, rng.randint(0, 3))
        files = [badtree.gen_file(rng, k, *spec()) for k in range(rng.choice([3, 5, 8]))]
        files.append({"path": "/disk/store/good.yaml", "tree": base.gen_tree(rng, rng.randint(1, 6)), "name": "good"})
        clients = []
        for c in range(rng.choice([1, 1, 1, 2])):
            ops = []
            for _ in range(rng.randint(3, 9)):
                x = rng.random()
                if x < 0.62:
                    op = {"op": "load_path", "path": "file://" + rng.choice(files)["path"]}
                elif x < 0.7:
                    op = {"op": "load_path", "path": rng.choice(PATHS)}
                elif x < 0.82:
                    s, wir = spec()
                    op = {"op": "load", "tree": s, "wirings": wir, "name": "msg", "mut": [editgen.gen_mut(rng) for _ in range(rng.choice([1, 1, 2]))]}
                elif x < 0.92:
                    op = {"op": "control", "cmd": rng.choice(AFTER)}
                else:
                    op = rng.choice([{"op": "reload"}, {"op": "name", "name": "other"}, {"op": "nodes"}, {"op": "clear"}])
                if op["op"].startswith("load") and rng.random() < 0.15:
                    op["permissive"] = True
                ops.append(dict(op, wait=rng.choice([0, 0, 1, 60, 300]) * MS))
            clients.append({"name": f"c{c}", "ops": ops})
        s, wir = spec()
        sc = dict(tree=s if rng.random() < 0.93 else None, files=files, clients=clients, hz=rng.choice([10.0, 0.5, 50.0]))
        if sc["tree"]:
            sc["wirings"] = wir
        if rng.random() < 0.5:
            sc["disk"] = [{"kind": rng.choice(["open_r", "open_r", "read"]), "nth": rng.choice([1, 1, 2, 3, 5]),
                           "fault": rng.choice(["EIO", "EACCES", "EMFILE", "ENOENT", "EIO", "stall"]), "ns": rng.choice([5, 300, 3000]) * MS}
                          for _ in range(rng.choice([1, 1, 2, 3]))]
        return sc

    def variants(self, rng, sc, r):
        for c in super().variants(rng, sc, r):
            if r["disk_ops"] and rng.random() < 0.5:
                c["disk"] = [{"op": rng.randint(1, r["disk_ops"]), "fault": rng.choice(["EIO", "EACCES", "EMFILE", "stall"]), "ns": 50 * MS}]
                c["plan"] = []
            yield c

    def prepare(self, w, sc):
        super().prepare(w, sc)
        w.watched = base.EDITS

    def setup_env(self, w, sc):
        for f in sc["files"]:
            badtree.write(w, f)

    def client(self, w, sc, cl):
        for op in cl["ops"]:
            if op.get("wait"):
                w.k.sleep(op["wait"])
            if not self.one(w, sc, cl["name"], op):
                return
            if op["op"].startswith("load"):          # later requests are served
                if not self.one(w, sc, cl["name"], {"op": "storages"}):
                    return

    def drive(self, w, sc):
        self.start(w, sc)
        self.run_clients(w, sc)
        w.settle()
        w.final = []
        w.disk.plan, w.disk.kindplan = {}, []
        good = sc["files"][-1]
        for op in ({"op": "control", "cmd": "STOP"}, {"op": "control", "cmd": "SHUTDOWN"}, {"op": "load_path", "path": "file://" + good["path"]},
                   {"op": "control", "cmd": "TICK_ONCE"}, {"op": "control", "cmd": "SHUTDOWN"}):
            if w.unanswered or not self.one(w, sc, "final", op):
                return
            w.final.append(w.calls[-1])
            w.k.sleep(50 * MS)
        w.settle()
        w.finished = True

    def check(self, w, sc):
        if self.died(w):
            return
        for c in w.unanswered:
            return w.violation("no_answer", f"{c.srv} {c.op} was not answered")
        if not hasattr(w, "finished"):
            return w.violation("no_end", "the session did not end")
        for c in w.calls:
            if c.srv in ("load_tree", "load_tree_from_path") and c.resp is not None and c.client != "final" and (c.op or {}).get("op") != "load0":
                self.load(w, sc, c)
                if w.violations:
                    return
        for c, what in zip(w.final[2:], ("a good tree cannot be loaded", "a good tree cannot be executed")):
            if not c.resp.success:
                return w.violation("not_serving", f"after the session {what}: {c.resp.error_message}")
        d = editmodel.diff(self.want(w, sc["files"][-1]["path"]), editmodel.comparable(editmodel.snapshot(w.manager()), False))
        if d:
            return w.violation("wrong_tree", f"the tree loaded at the end (expected vs found): {d}")

    def want(self, w, path):
        d, why = badtree.read(path.replace("/disk", w.scratch))
        return badtree.view(d)

    def load(self, w, sc, c):
        ok = c.resp.success
        what = f"loading {describe(c.op, sc)}"
        hit = any(c.started <= s <= c.ended and t == c.thr and f != "stall" for s, t, f in w.disk.hits)
        d = why = None
        if c.srv == "load_tree":
            d = storage.plain(c.req.tree)
        else:
            p = c.req.path
            if not p.startswith("file://"):
                why = "path"
            else:
                d, why = badtree.read(p[7:])
        if d is not None:
            why = badtree.inconsistent(d)
            if why is None and c.srv == "load_tree":
                why = bad_muts(c.op)
            elif why is None:
                f = [f for f in sc["files"] if "file://" + f["path"] == c.op["path"]]
                if f and not f[0].get("spoil"):
                    why = bad_muts({"muts_done": mutated(f[0])})
        w.k.count("bad_loads" if why else "faulty_loads" if hit else "good_loads" if plainly_good(sc, c) else "odd_loads", 1)
        if ok:
            if hit:
                return w.violation("read_error_ignored", f"{what} succeeded although reading failed")
            if why:
                return w.violation("accepted_bad", f"{what} succeeded, although: {why}")
            if c.alone and d is not None:
                x = editmodel.diff(badtree.view(d), editmodel.comparable(c.after, False))
                if x:
                    return w.violation("wrong_tree", f"{what} succeeded, but (expected vs found) {x}")
            w.k.count("loaded", 1)
            return
        if not c.resp.error_message:
            return w.violation("unexplained", f"{what} failed without an explanation")
        if c.alone:
            x = editmodel.diff(full(c.before), full(c.after))
            if x is None and c.before["rate"] != c.after["rate"]:
                x = f"tick rate {c.before['rate']} became {c.after['rate']}"
            if x is None and c.before["state"] != c.after["state"] and not concurrent_control(w, c):
                x = f"state {c.before['state']} became {c.after['state']}"
            if x:
                return w.violation("changed", f"{what} failed, but changed the tree: {x}")
            if not hit and plainly_good(sc, c) and c.before["state"] == "EDITABLE" and not concurrent_control(w, c):
                return w.violation("refused_good", f"{what} failed, although nothing was wrong: {c.resp.error_message}")


def concurrent_control(w, c):
    return any(x is not c and x.srv == "control_tree_execution" and getattr(x, "started", None) is not None and x.started <= c.ended and
               (getattr(x, "ended", None) is None or x.ended >= c.started) for x in w.calls)


def mutated(f):
    from .. import tree as T
    t, _ = T.tree_msg(f["tree"], name=f["name"], wirings=f.get("wirings", ()))
    return editgen.mutate(t, f.get("mut", []))


def bad_muts(op):
    b = sorted(set(op.get("muts_done", ())) & editgen.BAD_MUTS)
    # (a wiring put to a port can be repaired by a later mutation of the same message, ids cannot)
    return "it was spoiled: " + ", ".join(b) if b == ["wiring_type"] and len(op["muts_done"]) == 1 else None


def plainly_good(sc, c):
    if c.srv != "load_tree_from_path":
        return False
    f = [f for f in sc["files"] if "file://" + f["path"] == c.op["path"]]
    return bool(f) and not (f[0].get("spoil") or f[0].get("mut") or f[0].get("place"))


def describe(op, sc):
    f = [f for f in sc["files"] if "file://" + f["path"] == op.get("path")]
    if f:
        return f"a file ({', '.join(str(f[0][k]) for k in ('spoil', 'mut', 'place') if k in f[0]) or 'good'})"
    return str(op.get("path") if op["op"] == "load_path" else op.get("mut"))


PROP = C12()
_ = copy
