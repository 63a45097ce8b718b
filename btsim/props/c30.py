"""C30 Queries about storage, packages and node classes are answered completely and consistently."""
import json
import os
import sys

from .. import base, disk as D, libgen, stubs as stub_mod, subgen
from ..base import MS, SEC

LATE = {"btsim.late.one": ["LateOne", "LateTwo"], "btsim.late.two": ["LateThree"], "btsim.late.three": ["LateFour", "LateFive", "LateSix"],
        "btsim.late.empty": []}
BAD = ["btsim.late.raising", "btsim.late.attr", "btsim.late.missing", "btsim.late.syntax", "no.such.module", ".relative", "btsim..late", "..", "x y"]
GOODMODS = list(LATE) + ["ros_bt_py.nodes", "btsim.testnodes", "json", ""]
STORES = ["/disk/store", "/disk/store2", "/disk/void"]
DIRS = STORES * 3 + ["/disk/store/", "/disk/other", "/disk", "", "store", "/", "/disk/store/sub", "/disk/store/../store"]
PKGS = ["simpkg"] * 4 + ["twopkg", "twopkg", "gonepkg", "nopkg", "x", "", "../store", "sim pkg", "ünï", "/etc", "-a", "simpkg/sub", "a" * 300]
NAMES = ["a.yaml", "b.yaml", "sub", "sub/c.yaml", "sub/deep", "sub/deep/d.yaml", "sub/deep/er/e.yaml", ".hid", ".hid/h.yaml", "sub/.h.yaml", "é ü.yaml",
         "empty", "x\ny.yaml", 'q"uote.yaml', "many/1", "many/2", "many/3"]
MSGS = {"std_msgs": ["Bool", "Byte", "ByteMultiArray", "Char", "ColorRGBA", "Empty", "Float32", "Float64MultiArray", "Header", "Int8", "Int64", "String", "UInt8",
                     "UInt16MultiArray", "UInt64"],
        "ros_bt_py_interfaces": ["BTLogMessage", "DocumentedNode", "EnumTest", "MessageTypes", "NodeStructure", "TreeStructureList", "UtilityBounds", "Wiring"],
        "diagnostic_msgs": ["DiagnosticArray", "KeyValue"], "builtin_interfaces": ["Duration", "Time"],
        "rcl_interfaces": ["IntegerRange", "Log", "Parameter", "ParameterType", "ParameterValue"], "action_msgs": ["GoalInfo", "GoalStatusArray"],
        "unique_identifier_msgs": ["UUID"], "geometry_msgs": ["Accel", "Inertia", "Point32", "PolygonStamped", "PoseWithCovariance", "TransformStamped"],
        "type_description_interfaces": ["Field", "TypeSource"]}
SRVS = {"std_srvs": ["Empty", "SetBool", "Trigger"], "ros_bt_py_interfaces": ["AddNode", "LoadTree"], "rcl_interfaces": ["GetParameters"]}
ACTS = {"example_interfaces": ["Fibonacci", "LookupTransform"]}


def gen_ifaces(rng):
    out = {}
    for kind, src in (("msg", MSGS), ("srv", SRVS), ("action", ACTS)):
        for p, names in src.items():
            if rng.random() < 0.35:
                out.setdefault(p, {})[kind] = rng.sample(names, rng.randint(1, min(3, len(names))))
    if rng.random() < 0.2:
        out["geometry_msgs"] = out.get("geometry_msgs", {})
    return out


class C30(base.Session):
    id = "C30"
    quick_total = 220
    nvariants = 3
    rule = "a run counts when a query was judged"

    def nontrivial(self, r):
        return r["extra"].get("judged", 0) > 0

    def op(self, rng):
        x = rng.random()
        if x < 0.36:
            op = {"op": "folders", "dir": rng.choice(DIRS), "hidden": rng.random() < 0.4}
        elif x < 0.54:
            op = {"op": "packages", "pkg": rng.choice(PKGS), "hidden": rng.random() < 0.4}
        elif x < 0.82:
            mods = [rng.choice(GOODMODS if rng.random() < 0.75 else BAD) for _ in range(rng.choice([0, 1, 1, 2]))]
            op = {"op": "nodes", "mods": mods}
        elif x < 0.86:
            op = {"op": "storages"}
        elif x < 0.94:
            m = rng.choice([*LATE, *LATE, *LATE, *BAD, "", "json"])
            op = {"op": "add", "mod": m, "c": rng.choice([*(LATE.get(m) or ["LateOne"]), "Nope"]), "n": f"x{rng.randrange(1000)}"}
        else:
            op = {"op": "save", "file": rng.choice(["a.yaml", "new/n.yaml", "sub/c2.yaml"]), "dir": rng.choice(STORES[:2]), "over": rng.random() < 0.7,
                  "tree": base.gen_tree(rng, rng.choice([1, 4])), "name": "t"}
        op["wait"] = rng.choice([0, 0, 0, 1, 20]) * MS
        return op

    def gen(self, rng, i):
        files = [{"path": f"/disk/{r}/{n}", "text": libgen.TEXT[j % 7]} for r in ("store", "store2", "pkg", "pkg2") for j, n in enumerate(NAMES)
                 if rng.random() < 0.4 and n not in ("sub", "sub/deep", ".hid", "empty")]
        nc = rng.choice([1, 2, 2, 3])
        sc = dict(files=files, dirs=[f"/disk/{r}/empty" for r in ("store", "pkg") if rng.random() < 0.4], ifaces=gen_ifaces(rng) if rng.random() < 0.7 else None,
                  clients=[{"name": f"c{c}", "ops": [self.op(rng) for _ in range(rng.randint(1, 5))]} for c in range(nc)],
                  subs={t: rng.choice([0, 0, 1, 2]) for t in ("message_types", "packages")}, join=rng.choice([0, 100, 950, 1700]) * MS)
        if rng.random() < 0.6:
            sc["changes"] = [{"nth": rng.randint(1, 14), "do": rng.choice(["file", "dir", "rm", "rm", "rmtree", "swap", "move"]), "root": rng.choice(["store", "store", "store2", "pkg"]),
                              "name": rng.choice(NAMES), "to": rng.choice(NAMES + ["moved"])} for _ in range(rng.randint(1, 6))]
        if rng.random() < 0.35:
            sc["disk"] = [{"kind": "listdir", "nth": rng.randint(1, 10), "fault": rng.choice(["EACCES", "EIO", "EMFILE", "stall"]), "ns": 20 * MS}
                          for _ in range(rng.randint(1, 3))]
        return sc

    shrink_lists = base.Prop.shrink_lists + ["changes", "files", "dirs"]

    def params(self, sc):
        from .. import ros
        return {"tree_storage_paths": [ros.W.scratch + x[5:] for x in STORES]}

    # -- the environment -----------------------------------------------------------------------------------------
    def setup_env(self, w, sc):
        subgen.write_files(w, sc["files"])
        for d in ("/disk/pkg", "/disk/pkg2", "/disk/store2", "/disk/other", *sc["dirs"]):
            D._r["makedirs"](w.scratch + d[5:], exist_ok=True)
        w.packages = {"simpkg": w.scratch + "/pkg", "twopkg": w.scratch + "/pkg2", "gonepkg": w.scratch + "/gone", "systempkg": "/opt/ros/nowhere"}
        w.ext_subs = {f"/{self.node()}/{t}": n for t, n in sc["subs"].items()}
        w.shots = [(0, self.shot(w))]
        w.listed = 0
        w.imports = {}          # module -> log position at which it had been imported
        real_op = w.disk.op

        def op(kind, path):
            if kind == "listdir":
                w.listed += 1
                for c in sc.get("changes") or ():
                    if c["nth"] == w.listed:
                        self.change(w, c)
            return real_op(kind, path)
        w.disk.op = op
        w.disk.watch = lambda kind: self.look(w)

    @staticmethod
    def node():
        from ..world import NODE
        return NODE

    def shot(self, w):
        out = {}
        for b, ds, fs in os.walk(w.scratch):
            for d in ds:
                out[os.path.join(b, d)] = "directory"
            for f in fs:
                out[os.path.join(b, f)] = "file"
        return out

    def look(self, w):
        s = self.shot(w)
        if s != w.shots[-1][1]:
            w.shots.append((len(w.k.log), s))

    def change(self, w, c):
        p = f"{w.scratch}/{c['root']}/{c['name']}"
        q = f"{w.scratch}/{c['root']}/{c['to']}"
        saved, w.disk.enabled = w.disk.enabled, False
        try:
            if c["do"] == "file":
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").close()
            elif c["do"] == "dir":
                os.makedirs(p, exist_ok=True)
            elif c["do"] == "rm":
                os.remove(p)
            elif c["do"] in ("rmtree", "swap"):
                for b, ds, fs in os.walk(p, topdown=False):
                    for f in fs:
                        os.remove(os.path.join(b, f))
                    os.rmdir(b)
                if c["do"] == "swap":
                    open(p, "w").close()
            elif c["do"] == "move":
                os.rename(p, q)
        except OSError:
            return
        finally:
            w.disk.enabled = saved
        w.k.rec("env", c["do"], c["root"] + "/" + c["name"])
        w.faults["file_" + c["do"]] += 1
        self.look(w)

    # -- the session ---------------------------------------------------------------------------------------------
    def drive(self, w, sc):
        self.start(w, sc)
        w.boot = self.classes()
        self.run_clients(w, sc)
        w.settle()
        w.k.sleep(sc["join"])
        w.tail = w.k.now
        for t, n in sc["subs"].items():
            if not n:
                w.ext_subs[f"/{self.node()}/{t}"] = 1
        w.k.sleep(int(2.2 * SEC))
        w.tail_end = w.k.now
        w.known = self.classes()
        w.finished = True

    @staticmethod
    def classes():
        from ros_bt_py.node import Node
        return {(m, c): x for m, d in Node.node_classes.items() for c, x in d.items()}

    def one(self, w, sc, name, op):
        x = super().one(w, sc, name, op)
        for m in LATE:
            if m in sys.modules and m not in w.imports:
                w.imports[m] = len(w.k.log)
        return x

    # -- the oracle ----------------------------------------------------------------------------------------------
    def check(self, w, sc):
        if self.died(w) or w.violations:
            return
        for c in getattr(w, "unanswered", ()):
            return w.violation("no_answer", f"{c.srv} {w.norm(str(c.op))} was not answered")
        if not hasattr(w, "finished"):
            return
        for c in w.calls:
            f = {"get_folder_structure": self.folders, "get_package_structure": self.package, "get_available_nodes": self.nodes,
                 "get_storage_folders": self.storages, "add_node": self.add}.get(c.srv)
            if f is not None:
                w.k.count("judged", 1)
                f(w, c, lambda cls, what: w.violation(cls, w.norm(f"{c.op}: {what}")))
            if w.violations:
                return
        self.lists(w, sc)

    def explained(self, c, bad):
        if not c.resp.error_message:
            bad("unexplained", "was refused without an explanation")

    def folders(self, w, c, bad):
        if c.req.storage_folder not in [w.scratch + x[5:] for x in STORES]:
            return bad("accepted", "was accepted, although it is no storage directory") if c.resp.success else self.explained(c, bad)
        self.listing(w, c, c.req.storage_folder, c.resp.storage_folder_structure, bad)

    def package(self, w, c, bad):
        path = w.packages.get(c.req.package)
        if path is None:
            return bad("accepted", "was accepted, although there is no such package") if c.resp.success else self.explained(c, bad)
        self.listing(w, c, path, c.resp.package_structure, bad)

    def listing(self, w, c, root, text, bad):
        if not c.resp.success:
            return bad("refused", f"was refused: {c.resp.error_message}")
        d = json.loads(text)
        hidden = c.req.show_hidden
        during = [s for i, (q, s) in enumerate(w.shots) if q <= c.ended and (i + 1 == len(w.shots) or w.shots[i + 1][0] >= c.started)]
        hit = any(c.started <= s <= c.ended and t == c.thr and f != "stall" for s, t, f in w.disk.hits)
        ids, got = {}, {}

        def walk(x, path, parent):
            if x["item_id"] in ids:
                return bad("duplicate_id", f"the entries {ids[x['item_id']]} and {path} have the same id {x['item_id']}")
            ids[x["item_id"]] = path
            if x["parent"] != parent:
                return bad("wrong_parent", f"the entry {path} has the parent {x['parent']} instead of {parent}")
            if path in got:
                return bad("listed_twice", f"{path} is listed twice")
            got[path] = x["type"]
            for y in x.get("children", ()):
                if not hidden and y["name"].startswith("."):
                    return bad("hidden", f"lists {path}/{y['name']}, although hidden entries were not asked for")
                walk(y, path + "/" + y["name"], x["item_id"])
        walk(d, root, 0)
        if w.violations:
            return
        if d["name"] != os.path.basename(root):
            return bad("wrong_name", f"the root is called {d['name']}")
        partial = [p for p, t in got.items() if t == "readonly_directory"]
        if not hit:
            for p in partial:
                if all(s.get(p) == "directory" for s in during):
                    return bad("not_read", f"{p} is not listed although it could have been read")
        for p, t in got.items():
            if p == root:
                continue
            if not any(p in s for s in during):
                return bad("invented", f"{p} is listed, but did not exist")
            if all(s.get(p) == "file" for s in during) and t != "file" or all(s.get(p) == "directory" for s in during) and t == "file":
                return bad("wrong_type", f"{p} is listed as {t}")
        for p, t in during[0].items():
            if not p.startswith(root + "/") or p in got or not all(p in s for s in during):
                continue
            rel = p[len(root) + 1:].split("/")
            if not hidden and any(x.startswith(".") for x in rel):
                continue
            above = [root + "".join("/" + x for x in rel[:i]) for i in range(len(rel))]
            if any(a in partial for a in above) or not all(s.get(a) == "directory" for s in during for a in above):
                continue
            return bad("missing", f"{p} existed all the time, but is not listed")
        w.k.count("listed", len(got))

    def storages(self, w, c, bad):
        if list(c.resp.storage_folders) != [w.scratch + x[5:] for x in STORES]:
            bad("storages", f"was answered with {c.resp.storage_folders}")

    def good(self, m):
        return m in GOODMODS

    def nodes(self, w, c, bad):
        wrong = [m for m in c.req.node_modules if not self.good(m)]
        if wrong:
            return bad("accepted", f"succeeded, although {wrong[0]} cannot be loaded") if c.resp.success else self.explained(c, bad)
        if not c.resp.success:
            return bad("refused", f"was refused: {c.resp.error_message}")
        got = [(d.module, d.node_class) for d in c.resp.available_nodes]
        if len(set(got)) != len(got):
            return bad("listed_twice", f"{sorted(x for x in set(got) if got.count(x) > 1)[0]} is listed twice")
        need = set(w.boot)
        for m, seq in w.imports.items():
            if seq <= c.started or m in c.req.node_modules:
                need |= {(m, x) for x in LATE[m]}
        for x in sorted(need):
            if x not in got:
                return bad("missing", f"{x[0]}.{x[1]} is not listed")
        for d in c.resp.available_nodes:
            k = w.known.get((d.module, d.node_class))
            if k is None:
                return bad("invented", f"{d.module}.{d.node_class} is listed, but does not exist")
            cfg = k._node_config
            if d.max_children != (-1 if cfg.max_children is None else cfg.max_children) or [x.key for x in d.inputs] != list(cfg.inputs) or \
                    [x.key for x in d.outputs] != list(cfg.outputs) or list(d.tags) != list(cfg.tags or []):
                return bad("wrong_description", f"{d.module}.{d.node_class} is not described as it is")

    def add(self, w, c, bad):
        ok = c.op["c"] in LATE.get(c.op["mod"], ())
        if not ok:
            return bad("accepted", "was accepted, although there is no such node class") if c.resp.success else self.explained(c, bad)
        if not c.resp.success:
            return bad("refused", f"was refused: {c.resp.error_message}")

    def lists(self, w, sc):
        inc = sc.get("ifaces") or stub_mod._PKGS
        msgs = [f"{p}/msg/{n}" for p, d in inc.items() for n in d.get("msg", [])]
        for topic in sc["subs"]:
            got = w.msgs("~/" + topic)
            if not got:
                return w.violation("no_list", f"~/{topic} was never published")
            for _, _, m in got[-1:]:
                if topic == "packages":
                    have = sorted((p.package, p.path) for p in m.packages)
                    want = sorted((p, d) for p, d in w.packages.items() if not d.startswith("/opt/ros"))
                    if have != want:
                        return w.violation("wrong_list", w.norm(f"~/packages contains {have} instead of {want}"))
                else:
                    for kind in ("srv", "action"):
                        have = sorted(m.services if kind == "srv" else m.actions)
                        want = sorted(f"{p}/{kind}/{n}" for p, d in inc.items() for n in d.get(kind, []))
                        if have != want:
                            return w.violation("wrong_list", f"~/message_types contains {have} instead of {want}")
                    if inc is sc.get("ifaces"):
                        have = sorted(t.name for t in m.topics)
                        if have != sorted(msgs):
                            return w.violation("wrong_list", f"~/message_types contains {have} instead of {sorted(msgs)}")
                        for t in m.topics:
                            p, _, n = t.name.split("/")
                            cls = getattr(__import__(p + ".msg", fromlist=["x"]), n)
                            want = list(cls.get_fields_and_field_types())
                            if [f.key for f in t.fields] != want:
                                return w.violation("wrong_list", f"~/message_types gives {t.name} the fields {[f.key for f in t.fields]} instead of {want}")
            times = [n for _, n, _ in got if w.tail <= n <= w.tail_end]
            last = w.tail
            for n in [*times, w.tail_end]:
                if n - last > int(1.1 * SEC) + sum(x[3] for x in sc.get("plan", ())):
                    return w.violation("not_repeated", f"~/{topic} was not published for {(n - last) / SEC} s although somebody is subscribed")
                last = n
            if any(m != got[-1][2] for _, _, m in got):
                return w.violation("wrong_list", f"~/{topic} changed")


PROP = C30()
