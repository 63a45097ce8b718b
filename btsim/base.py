"""Common parts of the property checks: scenario generation, the session driver, helpers over the history."""
import copy
import hashlib
import json

from . import tree as T
from . import world as wmod
from .kernel import MS, SEC

REAL = ["ros_bt_py.tree_node.main/TreeNode", "TreeExecManager", "TreeEditManager", "SubtreeManager", "DebugManager",
        "DataFlowManager", "LoggingManager", "PackageManager", "Node and the node classes used", "NodeConfig/data types",
        "rclpy Future, Rate, Time, callback groups, message classes and CDR serialisation"]
STUBS = ["rclpy Node, executor, publishers, subscriptions, services, clients, timers, action client (simulated graph)",
         "threading, time, uuid (simulator)", "file system faults injected in front of a real scratch directory",
         "generated parameter library, rosidl_runtime_py, rclpy_message_converter, example_interfaces (stand-ins)"]


class Prop:
    id = None
    quick_total = 300
    thorough_total = 100_000
    quick_budget = 150
    thorough_budget = 1500
    real = REAL
    stubs = STUBS
    shrink_lists = ["clients", "clients.*.ops", "plan", "node_faults", "disk", "env"]
    nvariants = 3
    rule = "a run counts when its tree executed at least one node operation; distinct by the hash of its whole event log"
    assumptions = ["interleavings are explored at source-line granularity in ros_bt_py code; library code runs atomically",
                   "the simulated rclpy executor, graph and transport behave as documented for rclpy"]
    level = "exploration"

    def gen(self, rng, i):
        raise NotImplementedError

    def prepare(self, w, sc):
        w.leaf = sc.get("leaf", {})

    def drive(self, w, sc):
        raise NotImplementedError

    def check(self, w, sc):
        raise NotImplementedError

    def stuck(self, w, sc, reason):
        w.violation("stuck", f"the run did not end: {reason} {w.k.livelock or ''}")

    def nontrivial(self, r):
        return r["ops"] > 0

    def variants(self, rng, sc, r):
        """More scenarios of the same seed: the pilot with pre-emptions at lines the pilot really executed."""
        from .runner import make_plan
        acts = r["acts"]
        for _ in range(self.nvariants):
            c = copy.deepcopy(sc)
            c["plan"] = make_plan(rng, acts)
            if not c["plan"]:
                return
            yield c

    def fixup(self, sc):
        """Make a shrunk scenario self-consistent again (or return None)."""
        return sc

    def shrink_more(self, sc):
        if sc.get("sched_seed"):
            c = copy.deepcopy(sc)
            c["sched_seed"] = 0
            yield c
        for i, p in enumerate(sc.get("plan", [])):
            if p[3] not in (0, 1_000_000):
                for s in (0, 1_000_000):
                    c = copy.deepcopy(sc)
                    c["plan"][i][3] = s
                    yield c
        if sc.get("tree"):
            for spec in prune(sc["tree"]):
                c = copy.deepcopy(sc)
                c["tree"] = spec
                yield c
        for i, cl in enumerate(sc.get("clients", [])):
            for j, op in enumerate(cl["ops"]):
                if op.get("wait", 0) > 0:
                    c = copy.deepcopy(sc)
                    c["clients"][i]["ops"][j]["wait"] = 0
                    yield c
        for name, ops in sc.get("leaf", {}).items():
            c = copy.deepcopy(sc)
            del c["leaf"][name]
            yield c

    def evidence_doc(self, tier, seed, cov, elapsed, found, known, agg):
        c = dict(evaluations=agg.runs, distinct_nontrivial=len(agg.nontrivial), rule=self.rule,
                 samples=agg.samples[:3])
        c.update(cov)
        return dict(property=self.id, tier=tier if tier in ("quick", "thorough") else "quick", seed=int(seed), level=self.level,
                    coverage=c, assumptions=self.assumptions, wall_s=round(elapsed, 2), violations=1 if found else 0)


def prune(spec):
    """Smaller trees: each single node removed (with its subtree) or replaced by its only child."""
    def walk(s, path):
        for i, c in enumerate(s.get("ch", [])):
            yield path + [i], c
            yield from walk(c, path + [i])
    for path, c in list(walk(spec, [])):
        t = copy.deepcopy(spec)
        p = t
        for i in path[:-1]:
            p = p["ch"][i]
        if len(p["ch"]) > 1 or p["c"] in ("Sequence", "Fallback", "Parallel", "MemorySequence", "MemoryFallback"):
            del p["ch"][path[-1]]
            yield t
        if len(c.get("ch", [])) == 1:
            t = copy.deepcopy(spec)
            p = t
            for i in path[:-1]:
                p = p["ch"][i]
            p["ch"][path[-1]] = c["ch"][0]
            yield t
    if len(spec.get("ch", [])) == 1:
        yield copy.deepcopy(spec["ch"][0])


# ------------------------------------------------------------------------------------------------ generators --
COMPOSITES = ["Sequence", "Fallback", "MemorySequence", "MemoryFallback", "Parallel", "ParallelFailureTolerance", "SimPair"]
DECOS = ["Inverter", "IgnoreFailure", "IgnoreSuccess", "IgnoreRunning", "UntilSuccess", "Retry", "Repeat", "RepeatUntilFail",
         "RepeatIfFail", "RepeatAlways", "Optional", "Throttle"]


def gen_tree(rng, size=7, comps=COMPOSITES, decos=DECOS, leaf="SimLeaf", pdeco=0.25, depth=4, root=None, width=(1, 2, 2, 3, 3)):
    """A random tree. Leaves are called a, b, c...; inner nodes n1, n2, ..."""
    cnt = {"l": 0, "n": 0}

    def mk(budget, d, force=None):
        if budget <= 1 or d <= 0:
            cnt["l"] += 1
            return {"c": leaf if isinstance(leaf, str) else rng.choice(leaf), "n": "abcdefghijklmnopqrstuvwxyz"[cnt["l"] - 1]
                    if cnt["l"] <= 26 else f"l{cnt['l']}"}
        cnt["n"] += 1
        name = f"n{cnt['n']}"
        if decos and force is None and rng.random() < pdeco:
            c = rng.choice(decos)
            s = {"c": c, "n": name, "ch": [mk(budget - 1, d - 1)]}
            if c == "Retry":
                s["i"] = {"num_retries": rng.choice([0, 1, 2])}
            if c in ("Repeat", "RepeatNoAutoReset"):
                s["i"] = {"num_repeats": rng.choice([1, 2, 3])}
            if c == "IgnoreRunning":
                s["i"] = {"running_is_success": rng.random() < 0.5}
            if c == "Throttle":
                s["i"] = {"tick_interval": rng.choice([0.05, 0.25, 1.0])}
            return s
        c = force or rng.choice(comps)
        n = rng.choice(width) if c != "SimPair" else rng.choice([1, 2])
        n = min(n, budget - 1)
        left = budget - 1
        ch = []
        for j in range(n):
            b = max(1, left // (n - j)) if j < n - 1 else left
            b = rng.randint(1, max(1, b))
            left -= b
            ch.append(mk(b, d - 1))
        s = {"c": c, "n": name, "ch": ch}
        if c == "Parallel":
            s["i"] = {"needed_successes": rng.randint(1, n)}
        if c == "ParallelFailureTolerance":
            ns = rng.randint(1, n)
            s["i"] = {"needed_successes": ns, "tolerate_failures": rng.randint(0, n - ns)}
        return s
    return mk(size, depth, root)


def leaves(spec):
    return [s["n"] for s in T.names(spec) if not s.get("ch") and s["c"].startswith("Sim")]


def gen_script(rng, spec, n=12, p=(0.4, 0.25, 0.35), durs=(0, 0, 0, 2 * MS, 20 * MS, 70 * MS, 250 * MS), pd=0.3, teardown=0.1):
    out = {}
    for name in leaves(spec):
        seq = []
        for _ in range(rng.randint(1, n)):
            x = rng.random()
            e = "S" if x < p[0] else "F" if x < p[0] + p[1] else "R"
            if rng.random() < pd:
                d = rng.choice(durs)
                if d:
                    e = {"r": e, "d": d}
            seq.append(e)
        o = {"tick": seq}
        for op in ("setup", "untick", "reset", "shutdown"):
            if rng.random() < teardown:
                o[op] = [{"r": None, "d": rng.choice([2 * MS, 30 * MS, 150 * MS])}]
        out[name] = o
    return out


CONTROL = ["TICK_ONCE", "TICK_PERIODICALLY", "TICK_UNTIL_RESULT", "STOP", "RESET", "SHUTDOWN", "SETUP_AND_SHUTDOWN", "DO_NOTHING"]
CW = [4, 5, 3, 5, 3, 4, 1, 1]


def gen_control(rng, weights=CW):
    c = rng.choices(CONTROL, weights)[0]
    op = {"op": "control", "cmd": c}
    if c.startswith("TICK_") and c != "TICK_ONCE" and rng.random() < 0.4:
        op["rate"] = rng.choice([1.0, 5.0, 20.0, 50.0])
    return op


def wait_choice(rng, scale=1.0):
    return int(rng.choice([0, 0, 0, 100_000, 1 * MS, 10 * MS, 60 * MS, 100 * MS, 150 * MS, 400 * MS, 1200 * MS]) * scale)


# ---------------------------------------------------------------------------------------------------- requests --
def ref(w, name):
    return w.refs.get(name, name) if name else ""


NIL = "00000000-0000-0000-0000-000000000000"


def io_for(cls, key, value):
    """NodeIO for setting one input statically."""
    from ros_bt_py_interfaces.msg import NodeIO
    for io in wmod.DOCS[cls].inputs:
        if io.key == key:
            io = copy.deepcopy(io)
            io.type.is_static = True
            io.serialized_value = T.place(json.dumps(value))
            return io
    raise KeyError(key)


def wiring_msg(w, x):
    from ros_bt_py_interfaces.msg import NodeDataLocation, Wiring
    return Wiring(source=NodeDataLocation(node_id=ref(w, x[0]), data_key=x[1]),
                  target=NodeDataLocation(node_id=ref(w, x[2]), data_key=x[3]))


def build(w, op):
    """Scenario op -> (service name, request)."""
    import ros_bt_py_interfaces.srv as S
    from std_srvs.srv import SetBool
    o = op["op"]
    if o == "control":
        return "control_tree_execution", T.control(w, op["cmd"], op.get("rate", 0.0))
    if o == "load":
        r = T.load_req(w, op["tree"], name=op.get("name", "tree"), wirings=op.get("wirings", ()),
                       rate=op.get("hz", 10.0), public_in=op.get("pin", ()), public_out=op.get("pout", ()))
        if op.get("mut"):
            from . import editgen
            op["muts_done"] = editgen.mutate(r.tree, op["mut"])
        return "load_tree", r
    if o == "load_path":
        return "load_tree_from_path", S.LoadTreeFromPath.Request(path=op["path"].replace("/disk", w.scratch),
                                                                 permissive=op.get("permissive", False))
    if o in ("add", "add_at") and "mod" in op:
        from ros_bt_py_interfaces.msg import NodeStructure
        return "add_node", S.AddNode.Request(parent_node_id=NIL, node=NodeStructure(module=op["mod"], node_class=op["c"], name=op["n"]))
    if o in ("add", "add_at"):
        n = T.node_msg(op["c"], op["n"], "", op.get("i"), [ref(w, c) for c in op.get("ch", [])], op.get("dyn", ()))
        spoil_class(n, op)
        parent = ref(w, op["parent"]) if op.get("parent") else NIL
        if o == "add":
            return "add_node", S.AddNode.Request(parent_node_id=parent, node=n)
        return "add_node_at_index", S.AddNodeAtIndex.Request(parent_node_id=parent, node=n, new_child_index=op.get("idx", -1))
    if o == "remove":
        return "remove_node", S.RemoveNode.Request(node_id=ref(w, op["n"]), remove_children=op.get("rc", False))
    if o == "morph":
        n = T.node_msg(op["c"], op.get("new", op["n"]), "", op.get("i"), (), op.get("dyn", ()))
        spoil_class(n, op)
        return "morph_node", S.MorphNode.Request(node_id=ref(w, op["n"]), new_node=n)
    if o == "options":
        ins = []
        for k, v in op.get("i", {}).items():
            ins.append(io_for(op["c"], k, v))
        for k in op.get("dyn", []):
            io = io_for(op["c"], k, None)
            io.type.is_static = False
            io.serialized_value = ""
            ins.append(io)
        if op.get("garbage") is not None and ins:
            ins[0].serialized_value = op["garbage"]
        return "set_options", S.SetOptions.Request(node_id=ref(w, op["n"]), rename_node="new" in op, new_name=op.get("new", ""),
                                                   inputs=ins)
    if o == "move":
        return "move_node", S.MoveNode.Request(node_id=ref(w, op["n"]), parent_node_id=ref(w, op["parent"]) if op.get("parent")
                                               else NIL, new_child_index=op.get("idx", 0))
    if o == "replace":
        return "replace_node", S.ReplaceNode.Request(old_node_id=ref(w, op["n"]), new_node_id=ref(w, op["by"]))
    if o in ("wire", "unwire"):
        return o + "_data", S.WireNodeData.Request(wirings=[wiring_msg(w, x) for x in op["w"]], ignore_failure=op.get("ign", False))
    if o == "clear":
        return "clear", S.ClearTree.Request()
    if o == "reload":
        return "reload", S.ReloadTree.Request()
    if o == "name":
        return "change_tree_name", S.ChangeTreeName.Request(name=op["name"])
    if o == "get_subtree":
        return "get_subtree", S.GetSubtree.Request(root_id=ref(w, op["n"]))
    if o == "gen_subtree":
        return "generate_subtree", S.GenerateSubtree.Request(node_ids=[ref(w, n) for n in op["ns"]])
    if o == "diag":
        return "debug/set_collect_node_diagnostics", SetBool.Request(data=op["v"])
    if o == "pubdata":
        return "debug/set_publish_data", SetBool.Request(data=op["v"])
    if o == "pubsub":
        return "debug/set_publish_subtrees", SetBool.Request(data=op["v"])
    if o == "loglevel":
        return "set_log_level", S.SetLogLevel.Request(min_log_level=LEVELS.get(op["v"], op["v"]))
    if o == "nodes":
        return "get_available_nodes", S.GetAvailableNodes.Request(node_modules=op.get("mods", []))
    if o == "folders":
        return "get_folder_structure", S.GetFolderStructure.Request(storage_folder=op.get("dir", "").replace("/disk", w.scratch),
                                                                    show_hidden=op.get("hidden", False))
    if o == "storages":
        return "get_storage_folders", S.GetStorageFolders.Request()
    if o == "packages":
        return "get_package_structure", S.GetPackageStructure.Request(package=op.get("pkg", "simpkg"),
                                                                      show_hidden=op.get("hidden", False))
    if o == "save":
        return "save_tree", S.SaveTree.Request(storage_path=op.get("dir", "/disk/store").replace("/disk", w.scratch),
                                               filepath=op["file"].replace("/disk", w.scratch), tree=op_tree(w, op),
                                               allow_overwrite=op.get("over", False), allow_rename=op.get("rename", False))
    raise KeyError(o)


LEVELS = {"debug": 10, "info": 20, "warn": 30, "error": 40, "fatal": 50}


def spoil_class(n, op):
    if op.get("badclass") == "module":
        n.module = "no.such.module"
    elif op.get("badclass"):
        n.node_class = op["badclass"]


def op_tree(w, op):
    if op.get("tree"):
        return T.tree_msg(op["tree"], name=op.get("name", "tree"), wirings=op.get("wirings", ()), rate=op.get("hz", 10.0))[0]
    m = w.last("~/tree_structure_list")
    for t in m.tree_structures:
        if t.tree_id == NIL:
            return t
    return m.tree_structures[-1]


EDITS = {"load_tree", "load_tree_from_path", "add_node", "add_node_at_index", "remove_node", "morph_node", "set_options",
         "move_node", "replace_node", "wire_data", "unwire_data", "clear", "reload", "change_tree_name"}


# ------------------------------------------------------------------------------------------------- session -----
class Session(Prop):
    """Several clients issue requests against one process; afterwards the system is stopped and inspected."""
    call_timeout = 120 * SEC

    def params(self, sc):
        return None

    def setup_env(self, w, sc):
        pass

    def client(self, w, sc, cl):
        for op in cl["ops"]:
            if op.get("wait"):
                w.k.sleep(op["wait"])
            if op["op"] == "sleep":
                continue
            if not self.one(w, sc, cl["name"], op):
                return

    def one(self, w, sc, name, op):
        srv, req = build(w, op)
        c = w.call(srv, req, client=name, op=op, timeout=self.call_timeout)
        if c.resp is None and not c.lost:
            w.unanswered.append(c)
            return False
        if c.resp is not None and op["op"] in ("add", "add_at") and getattr(c.resp, "node_id", ""):
            w.refs[op["n"]] = c.resp.node_id
        return not c.lost

    def start(self, w, sc):
        w.unanswered = []
        self.setup_env(w, sc)
        w.start_process(self.params(sc))
        if not w.wait_up():
            w.violation("not_up", f"the process did not come up: {w.proc_exits[-1:]}")
            w.k.stop_here("done")
        if sc.get("tree"):
            c = w.call("load_tree", T.load_req(w, sc["tree"], wirings=sc.get("wirings", ()), rate=sc.get("hz", 10.0),
                                               public_in=sc.get("pin", ()), public_out=sc.get("pout", ())), op={"op": "load0"})
            w.load0 = c
            if c.resp is None or not c.resp.success:
                w.violation("initial_load", f"loading the scenario's tree failed: {getattr(c.resp, 'error_message', 'no answer')}")
                w.k.stop_here("done")

    def drive(self, w, sc):
        self.start(w, sc)
        self.run_clients(w, sc)
        self.finish(w, sc)

    def run_clients(self, w, sc):
        left = [len(sc.get("clients", []))]
        import btsim.kernel as kern
        me = kern.current()

        def run(cl):
            try:
                self.client(w, sc, cl)
            finally:
                left[0] -= 1
                if left[0] == 0:
                    w.k.make_ready(me, "clients")
        for cl in sc.get("clients", []):
            w.k.spawn("c_" + cl["name"], lambda cl=cl: run(cl), None)
        end = w.k.now + self.session_limit(sc)
        while left[0] > 0 and w.k.now < end:
            w.k.block(end - w.k.now, "clients")
        w.clients_done = left[0] == 0
        w.quiet = True

    def session_limit(self, sc):
        return 600 * SEC

    def finish(self, w, sc):
        w.settle()
        w.end_state = w.manager().state if w.manager() else None
        w.final_seq = len(w.k.log)
        w.final = []
        self.recover(w, sc)

    def recover(self, w, sc):
        """Faults are over: bring the tree to rest."""
        for cmd in ("STOP", "SHUTDOWN"):
            c = w.call("control_tree_execution", T.control(w, cmd), client="final", op={"op": "control", "cmd": cmd},
                       timeout=60 * SEC)
            w.final.append(c)
            if c.resp is None:
                break
        w.settle(timeout=5 * SEC)
        w.rest_seq = len(w.k.log)
        w.k.sleep(1500 * MS)

    # -- shared oracles ------------------------------------------------------------------------------------------
    def died(self, w):
        """The process must survive everything clients do."""
        for t, typ, msg, tb in w.proc_exits:
            w.violation("process_exit", f"the process ended: {typ}: {msg.splitlines()[0] if msg else ''} at {where(tb)}")
            return True
        for e in w.k.log:
            if e[2] == "thread_died" and e[3].startswith("T"):
                w.violation("thread_died", f"an execution thread died: {e[4]}: {e[5].splitlines()[0] if e[5] else ''} at {where(e[6])}")
                return True
        return False


def where(tb):
    """Innermost frame in the code under test."""
    best = ""
    for line in tb.splitlines():
        line = line.strip()
        if line.startswith('File "') and "/ros_bt_py/" in line:
            f = line.split('"')[1].split("/ros_bt_py/")[-1]
            best = f"{f} in {line.rsplit(' in ', 1)[-1]}"
    return best


def tree_view(m):
    """Canonical description of a manager's tree."""
    out = {}
    for nid, n in m.nodes.items():
        out[str(nid)] = dict(cls=type(n).__name__, name=n.name, children=[str(c.node_id) for c in n.children],
                             parent=str(n.parent.node_id) if n.parent is not None else None,
                             inputs={k: (v.serialize_value()) for k, v in n.inputs.items()} if hasattr(n.inputs, "items") else {})
    return out


def digest(x):
    return hashlib.md5(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:10]


_ = (MS,)
