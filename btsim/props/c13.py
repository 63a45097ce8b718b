"""C13 Saving is all-or-nothing and obeys the overwrite rules."""
import copy
import os

from .. import base, storage, subgen
from .. import tree as T
from ..base import MS, SEC

NAMES = ["a.yaml", "a.yaml", "a.yaml", "b.yaml", "new.yaml", "new.yaml", "sub/c.yaml", "deep/er/n.yaml", "t_2.yaml", "noext", "ä ö.yaml", "a.yaml/",
         "sub/../a.yaml", "a_2.yaml", "a_3.yaml", ".hid.yaml", "x" * 230 + ".yaml"]
ODD = ["", ".", "sub", "sub/", "..", "../other/x.yaml", "/disk/other/x.yaml", "../store2/z.yaml", "../storefake/x.yaml", "sub/../../other/x.yaml",
       "a.yaml/x.yaml", "/disk/store/a.yaml", "/disk/store/../other/y.yaml", "y" * 300 + ".yaml", "/etc/x.yaml", "../x.yaml"]
DIRS = ["/disk/store"] * 8 + ["/disk/store2", "/disk/nowhere", "/disk/other", "", "/disk"]
KINDS = ["open_w", "write", "write", "fsync", "close", "rename", "unlink", "mkdir"]
ERRS = ["ENOSPC", "EIO", "EACCES", "EROFS", "EMFILE"]


def gen_disk(rng, n, crashes=True):
    out = []
    for _ in range(n):
        kind = rng.choice(KINDS)
        f = {"kind": kind, "nth": rng.choice([1, 1, 2, 3, 4, 6]), "fault": rng.choice(ERRS)}
        if kind == "write" and rng.random() < 0.6:
            f.update(fault=rng.choice(["torn_ENOSPC", "torn_EIO", "short"] + ["torn_crash", "torn_power"] * crashes), frac=rng.choice([0, 0.3, 0.9]))
        elif crashes and rng.random() < 0.35:
            f["fault"] = rng.choice(["crash", "power"])
        elif rng.random() < 0.15:
            f.update(fault="stall", ns=rng.choice([1, 50]) * MS)
        out.append(f)
    return out


class C13(base.Session):
    id = "C13"
    quick_total = 170
    nvariants = 3
    rule = "a run counts when a save request was answered or killed by a crash"

    def nontrivial(self, r):
        return r["extra"].get("judged_saves", 0) > 0

    def tree(self, rng):
        if rng.random() < 0.08:
            return None
        return base.gen_tree(rng, rng.choice([1, 2, 4, 8, 40]))

    def save(self, rng, trees):
        op = {"op": "save", "file": rng.choice(NAMES if rng.random() < 0.8 else ODD), "dir": rng.choice(DIRS),
              "over": rng.random() < 0.5, "rename": rng.random() < 0.3}
        if rng.random() < 0.85:
            k = rng.randrange(len(trees))
            op.update(tree=trees[k], name=rng.choice([f"tree{k}", f"tree{k}", 'q: "x"\n- y', "ünï", "a\u2028b", "", " x "]))
        return op

    def gen(self, rng, i):
        trees = [base.gen_tree(rng, rng.choice([1, 2, 4, 8, 30])) for _ in range(3)]
        files = [{"path": f"/disk/{n}", "tree": base.gen_tree(rng, 3), "name": "old"} for n in
                 ("store/a.yaml", "store/sub/c.yaml", "store/t_2.yaml", "other/x.yaml", "store2/z.yaml") if rng.random() < 0.8]
        files.append({"path": "/disk/store/b.yaml", "text": rng.choice(["junk", "", "- 1\n- 2\n", "version: 1.0.0\n"])})
        files.append({"path": "/disk/storefake/q.yaml", "text": "other"})
        if rng.random() < 0.2:
            files.append({"path": "/disk/store/a_2.yaml", "text": "other"})
        nc = rng.choice([1, 1, 2, 3])
        clients = []
        for c in range(nc):
            ops = []
            for _ in range(rng.randint(2, 6 if nc == 1 else 4)):
                x = rng.random()
                if x < 0.7:
                    op = self.save(rng, trees)
                elif x < 0.85:
                    op = {"op": "load_path", "path": "file:///disk/store/" + rng.choice(["a.yaml", "new.yaml", "b.yaml", "a_2.yaml"])}
                else:
                    op = {"op": "folders", "dir": rng.choice(["/disk/store", "/disk/store", "/disk/other"])}
                ops.append(dict(op, wait=rng.choice([0, 0, 1, 20]) * MS))
            clients.append({"name": f"c{c}", "ops": ops})
        sc = dict(tree=base.gen_tree(rng, 3), files=files, clients=clients, after=[self.save(rng, trees) for _ in range(rng.randint(0, 3))],
                  hz=rng.choice([10.0, 0.1, 33.3]))
        if rng.random() < 0.75:
            sc["disk"] = gen_disk(rng, rng.choice([1, 1, 2, 3]))
        return sc

    def variants(self, rng, sc, r):
        """The pilot with a fault at an arbitrary disk operation it performed, or with pre-emptions."""
        for c in super().variants(rng, sc, r):
            if r["disk_ops"] and rng.random() < 0.7:
                f = {"op": rng.randint(1, r["disk_ops"]), "fault": rng.choice(["crash", "crash", "power", *ERRS, "torn_crash", "torn_ENOSPC", "torn_power"]),
                     "frac": rng.choice([0, 0.5])}
                c["disk"] = [f] + (c.get("disk") or [])[:1]
                if rng.random() < 0.5:
                    c["plan"] = []
            yield c

    def params(self, sc):
        from .. import ros
        return {"tree_storage_paths": [ros.W.scratch + "/store", ros.W.scratch + "/store2"]}

    def setup_env(self, w, sc):
        subgen.write_files(w, sc["files"])
        w.store = [w.scratch + "/store", w.scratch + "/store2"]
        w.fw = storage.Watch(w)

    def drive(self, w, sc):
        self.start(w, sc)
        self.run_clients(w, sc)
        w.settle()
        w.disk.plan, w.disk.kindplan = {}, []
        w.crashed = w.faults["process_crash"] > 0
        if w.crashed:
            w.start_process(self.params(sc))
            if not w.wait_up():
                w.violation("not_up", f"the process did not come up again: {w.proc_exits[-1:]}")
                w.k.stop_here("done")
            w.settle()
        for op in sc["after"]:
            if not self.one(w, sc, "after", op):
                break
        w.settle()
        w.loads = []
        seq = len(w.k.log)
        for p, tree in sorted(self.saved(w).items()):
            srv, req = base.build(w, {"op": "load_path", "path": "file://" + p.replace(w.scratch, "/disk")})
            c = w.call(srv, req, client="final", op={"op": "load_path", "path": w.norm(p)})
            w.loads.append((p, tree, c, sorted(str(n) for n in w.manager().nodes)))
            if c.resp is None:
                break
        w.end = seq
        w.finished = True

    def target(self, w, c):
        return os.path.abspath(os.path.join(c.req.storage_path, c.req.filepath)) if "\0" not in c.req.filepath else None

    def saved(self, w):
        """Files whose last change was made by a successful save: path -> tree."""
        out = {}
        done = {id(c) for c in w.calls if c.srv == "save_tree" and c.resp is not None and c.resp.success}
        for s, thr, kind, c, diff in w.fw.history:
            for p, (o, n) in diff.items():
                out.pop(p, None)
                if c is not None and id(c) in done and p == c.resp.file_path:
                    out[p] = c.req.tree
        return out

    # -- the oracle -----------------------------------------------------------------------------------------------
    def check(self, w, sc):
        if self.died(w) or w.violations:
            return
        for c in getattr(w, "unanswered", ()):
            return w.violation("no_answer", f"{c.srv} {c.op} was not answered")
        if not hasattr(w, "finished"):
            return
        if w.disk.outside:
            return w.violation("outside", f"changed something outside the storage directories: {w.norm(str(w.disk.outside[0]))}")
        saves = [c for c in w.calls if c.srv == "save_tree"]
        for c in saves:
            c.plain = storage.plain(c.req.tree)
            c.begin = getattr(c, "started", None)
            c.finish = getattr(c, "ended", None)
            c.path = self.target(w, c)
        self.instants(w, saves)
        if w.violations:
            return
        for c in saves:
            if c.begin is None:
                continue
            w.k.count("judged_saves", 1)
            if c.resp is not None:
                self.answer(w, c, saves)
            if w.violations:
                return
        for p, tree, c, ids in w.loads:
            if c.resp is None:
                return w.violation("no_answer", f"loading {w.norm(p)} was not answered")
            if not c.resp.success:
                return w.violation("not_loadable", f"{w.norm(p)} was saved successfully, but cannot be loaded: {w.norm(c.resp.error_message)}")
            if ids != sorted(n.node_id for n in tree.nodes):
                return w.violation("not_loadable", f"{w.norm(p)} was saved with {len(tree.nodes)} nodes, loading it gave {len(ids)}")
            w.k.count("judged_loads", 1)

    def family(self, c, p):
        """Could p be the file this save writes?"""
        if p == c.path:
            return True
        if not c.req.allow_rename or c.path is None or os.path.dirname(p) != os.path.dirname(c.path):
            return False
        (b, e), (pb, pe) = os.path.splitext(os.path.basename(c.path)), os.path.splitext(os.path.basename(p))
        return e == pe and pb.startswith(b.rstrip("0123456789"))

    def instants(self, w, saves):
        for s, thr, kind, c, diff in w.fw.history:
            for p, (old, new) in diff.items():
                def bad(cls, what):
                    w.violation(cls, f"{w.norm(p)} {what} ({kind} during {w.norm(str(c.op)) if c is not None else kind})")
                if not any(p.startswith(d + "/") for d in w.store):
                    return bad("outside", "is outside the storage directories and was changed")
                mine = c if c is not None and c.srv == "save_tree" else None
                if mine is None and kind != "crash":
                    return bad("changed", "was changed by something that is not a save")
                fam = [x for x in saves if x.begin is not None and self.family(x, p)]
                if old is not None and (p in w.fw.initial or any(storage.holds(old, x.plain) for x in fam)):
                    # a stored file
                    if mine is None or not storage.holds(new, mine.plain):
                        return bad("torn", f"was {'removed' if new is None else 'replaced by incomplete content'}")
                    if not mine.req.allow_overwrite or mine.req.allow_rename or p != mine.path:
                        return bad("overwritten", "was overwritten without permission")
                elif old is None and mine is not None and self.family(mine, p) and not storage.holds(new, mine.plain):
                    return bad("torn", "exists with incomplete content")

    def answer(self, w, c, saves):
        ok = c.resp.success

        def bad(cls, what):
            w.violation(cls, f"{w.norm(str(c.op))} was answered {'with success' if ok else 'with failure'}, {what}")
        before, after = w.fw.at(c.begin), w.fw.at(c.finish)
        inside = c.req.storage_path in w.store and c.path is not None and c.path.startswith(c.req.storage_path + "/")
        hit = any(c.begin <= s <= c.finish and t == c.thr and f not in ("short", "stall") for s, t, f in w.disk.hits)
        if ok:
            p = c.resp.file_path
            if not inside:
                return bad("outside", f"which is outside the storage directory (saved as {w.norm(p)})")
            if not c.req.allow_rename and p != c.path:
                return bad("wrong_path", f"as {w.norm(p)}")
            if not self.family(c, p):
                return bad("wrong_path", f"as {w.norm(p)}")
            mine = [s for s, t, k, x, diff in w.fw.history if x is c and p in diff]
            others = any(x is not c and x.begin is not None and x.begin <= c.finish and (x.finish is None or x.finish >= c.begin) and
                         self.family(x, p) for x in saves)
            if not storage.holds(after.get(p), c.plain) and not (others and (mine or storage.holds(before.get(p), c.plain))):
                return bad("not_saved", f"but {w.norm(p)} {'does not exist' if p not in after else 'does not hold the tree'}")
            if p in before and (c.req.allow_rename or not c.req.allow_overwrite):
                return bad("overwritten", f"as {w.norm(p)}, which existed")
            return
        if not c.resp.error_message:
            return bad("unexplained", "without an explanation")
        for s, t, k, x, diff in w.fw.history:
            for p, (o, n) in diff.items():
                if x is c and o is None and p in after and not any(k2 == "unlink" for _, k2, _ in w.disk.log if hit):
                    return bad("leftover", f"but it left {w.norm(p)} behind")
        if hit:
            return
        # what a fault-free save must do
        dirs = {os.path.dirname(x) for st in (before, after) for x in st} | set(w.store) | w.fw.dirs
        isdir = c.path in dirs or any(x.startswith(c.path + "/") for x in dirs) if inside else False
        exists = [c.path in before, c.path in after]
        parent_file = inside and any(c.path.startswith(x + "/") for x in [*before, *after])
        name_ok = inside and all(len(x.encode()) <= 255 for x in c.path.split("/"))
        must = inside and not isdir and not parent_file and name_ok and (not any(exists) or c.req.allow_overwrite or c.req.allow_rename)
        if must:
            return bad("refused", f"although nothing was wrong: {w.norm(c.resp.error_message)}")


PROP = C13()
_ = (copy, SEC, T)
