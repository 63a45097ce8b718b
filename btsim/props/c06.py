"""C06 Published state, structure and data agree with the tree."""
from .. import base, editgen, editmodel, execmodel, subgen
from ..base import MS, SEC
from ..kernel import current

T_STRUCT, T_STATE, T_DATA = "~/tree_structure_list", "~/tree_state_list", "~/tree_data_list"


def wiring_data(m):
    """What the nodes hold at the two ends of every wiring."""
    out = {}
    for x in m.wirings:
        k = editmodel.wkey(x)
        by = {str(i): n for i, n in m.nodes.items()}
        a, b = by.get(k[0]), by.get(k[2])
        if a is None or b is None:
            continue
        va = a.node_config.outputs[k[1]].serialize_value()
        vb = b.node_config.inputs[k[3]].serialize_value()
        out[k] = (va, va == vb)
    return out


def observe(m):
    o = dict(id=str(m.tree_id.unwrap_or(None)), state=m.state, snap=editmodel.snapshot(m), data=wiring_data(m),
             nodes={str(i): str(n.state) for i, n in m.nodes.items()}, subs={}, setup={})
    for i, n in m.nodes.items():
        if type(n).__name__ == "Subtree":
            o["subs"][str(i)] = observe(n.manager)
            o["setup"][str(i)] = not str(n.state).endswith(("UNINITIALIZED", "SHUTDOWN"))
    return o


class C06(base.Session):
    id = "C06"
    quick_total = 180
    nvariants = 2
    rule = "a run counts when its tree executed at least one node operation; distinct by the hash of its whole event log"

    def gen(self, rng, i):
        files = []
        if rng.random() < 0.45:
            for j in range(rng.choice([1, 1, 2])):
                files.append(subgen.gen_file(rng, j, files))
        if rng.random() < 0.6:
            spec = editgen.gen_spec(rng, rng.randint(1, 7))
        else:
            spec = base.gen_tree(rng, rng.randint(1, 7), leaf=["SimLeaf", "SimSource"])
        subs = subgen.put(rng, spec, files, rng.choice([0, 1, 2])) if files else []
        wir = editgen.gen_wirings(rng, spec, rng.randint(0, 4))
        src = [s["n"] for s in base.T.names(spec) if s["c"] == "SimSource"]
        for n, f in subs:
            ins, outs = subgen.ports(f)
            if src and ins and rng.random() < 0.7:
                wir.append([rng.choice(src), "out", n, ins[0]])
        g = editgen.Gen(rng, spec)
        leaf = base.gen_script(rng, {"c": "x", "n": "x", "ch": [spec] + [f["tree"] for f in files]}, pd=0.2, teardown=0.1)
        for s in leaf.values():
            for k, e in enumerate(s["tick"]):
                if rng.random() < 0.4:
                    e = dict(e) if isinstance(e, dict) else {"r": e}
                    e["out"] = {"out": rng.randint(0, 5)}
                    s["tick"][k] = e
        for s in base.T.names({"c": "x", "n": "x", "ch": [spec] + [f["tree"] for f in files]}):
            if s["c"] not in ("SimSource", "SimSink"):
                for e in leaf.get(s["n"], {}).get("tick", []):
                    if isinstance(e, dict):
                        e.pop("out", None)
        sc = dict(tree=spec, wirings=wir, leaf=leaf, files=files, hz=rng.choice([5.0, 10.0, 20.0]), clients=[],
                  strange=rng.random() < 0.06)
        if rng.random() < 0.3:
            from .c02 import gen_faults
            both = {"c": "x", "n": "x", "ch": [spec] + [f["tree"] for f in files]}
            if base.leaves(both):
                sc["node_faults"] = gen_faults(rng, both)
        for c in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.randint(4, 12)):
                x = rng.random()
                if x < 0.6:
                    op = base.gen_control(rng, [5, 4, 3, 6, 3, 4, 1, 1])
                elif x < 0.72:
                    op = g.op(None)
                elif x < 0.84 and c == 0:
                    op = {"op": rng.choice(["pubdata", "pubdata", "pubsub"]), "v": rng.random() < 0.65}
                elif x < 0.9:
                    op = {"op": "get_subtree", "n": g.any()}
                elif x < 0.93:
                    op = {"op": "diag", "v": rng.random() < 0.5}
                else:
                    op = {"op": "sleep"}
                op["wait"] = base.wait_choice(rng)
                ops.append(op)
            if c == 0 and rng.random() < 0.7:
                ops.insert(0, {"op": "pubdata", "v": True, "wait": 0})
            sc["clients"].append({"name": f"c{c + 1}", "ops": ops})
        return sc

    def setup_env(self, w, sc):
        subgen.write_files(w, sc.get("files", []))

    def prepare(self, w, sc):
        super().prepare(w, sc)
        w.quiet_seen = []
        w.after_tick = []

        def hook(w, d, phase):
            if phase == "end" and d["depth"] == 0 and d["op"] == "tick" and d["thr"].startswith("T"):
                m = w.manager()
                d["nodes_after"] = w.k.atomically(lambda: ({str(i): str(n.state) for i, n in m.nodes.items()}, wiring_data(m)))
        w.inv.append(hook)

    def look(self, w):
        """Observe the tree if nothing is going on."""
        m = w.manager()
        if m is None or not w.main_up:
            return

        def f():
            for e in w.calls:
                if e.started is not None and e.ended is None:
                    return
            if loops_alive(w):
                return
            w.quiet_seen.append(dict(seq=len(w.k.log), t=w.k.now, thr=current().name, **observe(m)))
        w.k.atomically(f)

    def one(self, w, sc, name, op):
        r = super().one(w, sc, name, op)
        self.look(w)
        return r

    def run_clients(self, w, sc):
        if sc.get("strange") and sc["tree"].get("ch"):
            w.call(*base.build(w, {"op": "remove", "n": sc["tree"]["n"], "rc": False}), op={"op": "remove"})
        self.look(w)
        stop = []

        def watcher():
            while not stop:
                w.k.sleep(37 * MS)
                self.look(w)
        w.k.spawn("watcher", watcher, None)
        super().run_clients(w, sc)
        stop.append(1)

    def finish(self, w, sc):
        w.settle()
        self.look(w)
        w.final = []
        self.recover(w, sc)
        self.look(w)

    # ------------------------------------------------------------------------------------------------ oracle ----
    def check(self, w, sc):
        if self.died(w):
            return
        for c in w.calls:
            if c.resp is None and not c.lost:
                w.violation("unanswered", f"{c.srv} was never answered")
                return
        calls, loops = execmodel.collect(w)
        cur = {t: [] for t in (T_STRUCT, T_STATE, T_DATA)}
        for t in cur:
            cur[t] = w.msgs(t)
        pos = dict.fromkeys(cur, 0)
        toggles = [c for c in w.calls if c.srv in ("debug/set_publish_data", "debug/set_publish_subtrees") and c.ended is not None]
        seen = set()
        for q in w.quiet_seen:
            last = {}
            for t, lst in cur.items():
                while pos[t] < len(lst) and lst[pos[t]][0] < q["seq"]:
                    pos[t] += 1
                last[t] = lst[pos[t] - 1][2] if pos[t] else None
            key = tuple(pos.values())
            if key in seen and q.get("same"):
                continue
            why = self.agree(w, q, last, toggles, loops)
            w.k.count("quiet_compared", 1)
            if why:
                w.violation(why[0], f"{why[1]} (tree state {q['state']}, after {self.before(w, q)})")
                return
        self.ticks(w, loops, cur, toggles)
        self.queries(w)

    def before(self, w, q):
        c = [c for c in w.calls if c.ended is not None and c.ended < q["seq"]]
        c = max(c, key=lambda c: c.ended, default=None)
        if c is None:
            return "start"
        return f"{execmodel.NAMES.get(c.req.command, '?') if c.srv == execmodel.CTRL else c.srv}"

    def agree(self, w, q, last, toggles, loops):
        st, ss, da = last[T_STRUCT], last[T_STATE], last[T_DATA]
        if st is None or ss is None:
            return "nothing_published", "the tree was never published"
        pub = True
        data_on = False
        on_at = 0
        for c in toggles:
            if c.ended < q["seq"]:
                if c.srv.endswith("subtrees"):
                    pub = c.req.data
                else:
                    data_on, on_at = c.req.data, c.ended
        want = trees(q) if pub else [q]
        got = {t.tree_id: t for t in st.tree_structures}
        if len(got) != len(st.tree_structures):
            return "structure", "two published structures have the same tree id"
        for o in want:
            if o["id"] not in got:
                return "structure", f"the structure of tree {o['snap']['name']} is not published"
            a = editmodel.comparable(o["snap"])
            b = editmodel.comparable(editmodel.from_msg(got[o["id"]]))
            d = editmodel.diff(a, b)
            if d:
                return "structure", f"the tree and its last published structure differ: {d}"
        if len(got) != len(want):
            return "structure", f"{len(got)} structures are published, but there are {len(want)} trees"
        got = {t.tree_id: t for t in ss.tree_states}
        for o in want:
            if o["id"] not in got:
                if o is q:
                    return "state", "the state of the tree is not published"
                if o["set_up"]:
                    return "state", f"the state of the subtree {o['snap']['name']} is not published"
                continue
            t = got[o["id"]]
            if o is q and t.state != o["state"]:
                return "state", f"the tree is in state {o['state']}, but the published state is {t.state}"
            ns = {n.node_id: n.state for n in t.node_states}
            for i, s in o["nodes"].items():
                name = o["snap"]["nodes"][i]["name"]
                if i not in ns:
                    return "state", f"the state of node {name} is not published"
                if not s.endswith(ns[i]):
                    return "state", f"node {name} is in state {s}, but its published state is {ns[i]}"
            if len(ns) != len(o["nodes"]) or len(ns) != len(t.node_states):
                return "state", "states of nodes that do not exist are published"
        if len(got) > len(want):
            return "state", "states of trees that do not exist are published"
        # data
        if not data_on and da is not None and da.tree_data:
            return "data", "data publishing is off, but data is still shown"
        if data_on and q["state"] not in ("EDITABLE", "ERROR") and ticked_after(loops, on_at, q["seq"]):
            w.k.count("quiet_data_compared", 1)
            dd = {t.tree_id: t for t in (da.tree_data if da is not None else [])}
            if q["id"] not in dd:
                return "data", "data publishing is on and the tree has ticked, but its data is not published"
            t = {editmodel.wkey(x.wiring): x for x in dd[q["id"]].wiring_data}
            for k, (v, same) in q["data"].items():
                if k not in t:
                    return "data", f"the data of wiring {k[1]} > {k[3]} is not published"
                if t[k].serialized_data != v:
                    return "data", f"output {k[1]} holds {v!r}, but the published value is {t[k].serialized_data!r}"
                if bool(t[k].is_current) != same:
                    return "data", f"wiring {k[1]} > {k[3]}: published as {'current' if t[k].is_current else 'outdated'}, but it is not"
            if len(t) != len(q["data"]):
                return "data", "data of wirings that do not exist is published"
        return None

    def ticks(self, w, loops, cur, toggles):
        """After every successful tick of the root the ticking thread publishes before it does anything else."""
        states = cur[T_STATE]
        for x in loops.values():
            for n, o in enumerate(x.ops):
                if o["op"] != "tick" or execmodel.bad(o) or o["s1"] is None:
                    continue
                nxt = x.ops[n + 1]["s0"] if n + 1 < len(x.ops) else x.end
                if nxt is None:
                    continue
                m = [(s, m) for s, t, m in states if o["s1"] <= s <= nxt and w.pub_thr.get(s) == x.label]
                if not m:
                    w.violation("tick_not_published", f"a tick of {o['node']} was followed by the next step without publishing the state")
                    return
                w.k.count("ticks_compared", 1)
                tree = m[0][1].tree_states[-1]
                ns = {n.node_id: n.state for n in tree.node_states}
                for i, s in o["nodes_after"][0].items():
                    if i not in ns or not s.endswith(ns[i]):
                        w.violation("tick_wrong_state", f"after a tick a node is in state {s}, but {ns.get(i)} is published")
                        return
                on = None
                for c in toggles:
                    if c.srv.endswith("set_publish_data"):
                        if c.ended < o["s1"]:
                            on = c.req.data
                        elif c.started < nxt:
                            on = None
                            break
                if on:
                    d = [m for s, t, m in cur[T_DATA] if o["s1"] <= s <= nxt and w.pub_thr.get(s) == x.label]
                    if not d:
                        w.violation("tick_data_not_published", "data publishing is on, but a tick was not followed by its data")
                        return
                    got = {editmodel.wkey(y.wiring): y.serialized_data for y in d[0].tree_data[-1].wiring_data}
                    for k, (v, same) in o["nodes_after"][1].items():
                        if got.get(k) != v:
                            w.violation("tick_wrong_data", f"after a tick output {k[1]} holds {v!r}, but {got.get(k)!r} is published")
                            return

    def queries(self, w):
        """get_subtree shows the tree as it was at some moment while the query was served."""
        quiet = w.quiet_seen
        for c in w.calls:
            if c.srv != "get_subtree" or c.resp is None or not c.resp.success:
                continue
            before = max((q for q in quiet if q["seq"] <= c.started), key=lambda q: q["seq"], default=None)
            after = min((q for q in quiet if q["seq"] > c.ended), key=lambda q: q["seq"], default=None)
            if before is None or after is None or any(
                    o is not c and o.started is not None and before["seq"] < (o.ended or 1 << 60) and o.started < after["seq"]
                    and (o.srv in base.EDITS or o.srv == execmodel.CTRL) for o in w.calls):
                continue
            w.k.count("queries_compared", 1)
            got = editmodel.comparable(editmodel.from_msg(c.resp.subtree))
            want = editmodel.comparable(before["snap"])
            if c.req.root_id not in want["nodes"]:
                w.violation("query", "get_subtree of a node that is not in the tree succeeded")
                return
            ids = below(before["snap"], c.req.root_id)
            want["nodes"] = {i: n for i, n in want["nodes"].items() if i in ids}
            want["name"] = got["name"]
            want["wirings"] = sorted(x for x in want["wirings"] if x[0] in ids and x[2] in ids)
            got["wirings"] = sorted(got["wirings"]) if got["wirings"] else want["wirings"]
            d = editmodel.diff(want, got)
            if d:
                w.violation("query", f"get_subtree and the tree differ: {d}")
                return


def loops_alive(w):
    """Is a tick thread of the process alive?"""
    n = {}
    for e in w.k.log[w.scanned if hasattr(w, "scanned") else 0:]:
        if e[2] == "thread_spawn":
            w.alive_threads.add(e[3])
        elif e[2] in ("thread_end", "thread_died"):
            w.alive_threads.discard(e[3])
    w.scanned = len(w.k.log)
    _ = n
    return bool(w.alive_threads)


def trees(o, up=True):
    out = []
    for i, s in o["subs"].items():
        s["set_up"] = o["setup"][i] and up
        out += trees(s, s["set_up"])
    out.append(o)
    return out


def below(snap, i):
    out, todo = set(), [i]
    while todo:
        x = todo.pop()
        out.add(x)
        todo += snap["nodes"][x]["children"]
    return out


def ticked_after(loops, a, b):
    return any(o["op"] == "tick" and a < o["s0"] and o["s1"] is not None and o["s1"] < b and not execmodel.bad(o)
               for x in loops.values() for o in x.ops) and not any(
        o["op"] == "tick" and execmodel.bad(o) and a < o["s0"] < b for x in loops.values() for o in x.ops)


_ = SEC
PROP = C06()
