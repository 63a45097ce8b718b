"""A deterministic stand-in for ROS, time and threads (sim/btsim), driven by a short script. The code under test is
imported from the current directory."""
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/sim")


def run(script, **scenario):
    """script(w, do): do(op) sends one request and returns its answer."""
    from btsim import base, kernel, world
    d = tempfile.mkdtemp(prefix="demo.")
    world.boot()
    world.init_cmds()
    sc = dict(leaf={}, clients=[], _scratch=d + "/run")
    os.makedirs(d + "/run/store")
    sc.update(scenario)
    w = world.World(sc)
    w.leaf = sc["leaf"]
    out = []

    def do(op, wait=True, timeout=60 * kernel.SEC):
        srv, req = base.build(w, op)
        if not wait:
            return w.call_async(srv, req, op=op)
        c = w.call(srv, req, op=op, timeout=timeout)
        assert c.resp is not None, f"{op} was never answered"
        if op["op"] in ("add", "add_at"):
            w.refs[op["n"]] = c.resp.node_id
        return c.resp

    def driver():
        try:
            w.start_process(sc.get("params"))
            assert w.wait_up(), w.proc_exits
            script(w, do)
        except kernel.SimDeath:
            raise
        except BaseException as e:  # noqa
            import traceback
            out.append("".join(traceback.format_exception(e)))
        w.k.stop_here("done")
    reason = w.k.run(driver)
    if reason != "done":
        out.append(f"the run did not end: {reason}")
    if w.proc_exits:
        out.append(f"the process ended: {w.proc_exits[0]}")
    shutil.rmtree(d, ignore_errors=True)
    for x in out:
        print(x)
    print("FAIL" if out else "PASS")
    sys.stdout.flush()
    os._exit(1 if out else 0)


def tree(w, do, spec, wirings=()):
    r = do({"op": "load", "tree": spec, "wirings": list(wirings)})
    assert r.success, r.error_message


def control(do, cmd, **k):
    return do(dict(op="control", cmd=cmd, **k))


def node(w, name):
    return [n for n in w.manager().nodes.values() if n.name == name][0]
