"""Seeded search: fork one child per simulated run, aggregate, minimise, replay, report."""
import argparse
import copy
import gc
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
_now = time.time           # the real clock, before the simulator replaces it
SCRATCH = None
WALL_LIMIT = 60
MIN_WALL = 120


def load_prop(pid):
    return importlib.import_module(f"btsim.props.{pid.lower()}").PROP


# --------------------------------------------------------------------------------------------------- one run --
def execute(prop, sc, want_trace=False):
    """Run one scenario in this (forked) process. Returns a plain dict."""
    from . import kernel, world
    sc = copy.deepcopy(sc)
    sc["_scratch"] = f"{SCRATCH}/run"
    w = world.World(sc)
    prop.prepare(w, sc)
    err = []

    def driver():
        try:
            prop.drive(w, sc)
        except kernel.SimDeath:
            raise
        except BaseException as e:  # noqa
            err.append("".join(traceback.format_exception(e))[-4000:])
            w.k.stop_here("driver_error")
        w.k.stop_here("done")
    reason = w.k.run(driver)
    k = w.k
    kernel.K = None            # checks below run outside the simulation
    err += w.observer_errors
    if err:
        return dict(harness=err[0], hash=w.log_hash(), trace=w.trace(60))
    try:
        if reason in ("livelock", "time_limit", "event_limit", "deadlock"):
            prop.stuck(w, sc, reason)
        else:
            prop.check(w, sc)
    except Exception as e:
        return dict(harness="check: " + "".join(traceback.format_exception(e))[-4000:], hash=w.log_hash(),
                    trace=w.trace(60))
    acts = {}
    for act, c in k.act_counts:
        acts[act] = c
    for t in list(kernel._by_ident.values()):
        if t.act and t.counts:
            acts[t.act] = t.counts
    st = k.stats
    faults = dict(w.faults)
    for key, n in w.disk.fired.items():
        faults["disk_" + key] = faults.get("disk_" + key, 0) + n
    if k.preempts_fired:
        faults["preemption"] = k.preempts_fired
    res = dict(violations=w.violations, hash=w.log_hash(), sched=k.sched_trace, now=k.now, events=k.events,
               lines=k.total_lines, switches=k.switches, reason=reason, faults=faults, probes=dict(w.probes),
               acts=acts, ops=len(w.ops), calls=len(w.calls), states=list(w.state_hashes), disk_ops=w.disk.ops,
               extra={a: b for a, b in st.items() if isinstance(b, int)})
    if want_trace:
        res["trace"] = w.trace(4000)
    return res


def fork_run(prop, sc, want_trace=False, wall=None):
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            nul = os.open("/dev/null", os.O_WRONLY)
            os.dup2(nul, 1)
            if not os.environ.get("BTSIM_STDERR"):
                os.dup2(nul, 2)
            try:
                res = execute(prop, sc, want_trace)
            except BaseException as e:  # noqa
                res = dict(harness="".join(traceback.format_exception(e))[-4000:], hash="")
            try:
                data = pickle.dumps(res)
            except Exception as e:  # noqa
                data = pickle.dumps(dict(harness="".join(traceback.format_exception(e))[-4000:], hash=""))
            mv = memoryview(struct.pack("<Q", len(data)) + data)
            while mv:
                n = os.write(wfd, mv)
                mv = mv[n:]
        except BaseException:  # noqa
            code = 3
        os._exit(code)
    os.close(wfd)
    buf = b""
    end = _now() + (wall or WALL_LIMIT)
    out = None
    while True:
        left = end - _now()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            out = dict(harness="wall timeout", hash="", wall=True)
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            continue
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    if out is None:
        try:
            (n,) = struct.unpack("<Q", buf[:8])
            out = pickle.loads(buf[8:8 + n])
        except Exception:
            out = dict(harness="child died", hash="")
    return out


# ---------------------------------------------------------------------------------------------- known findings --
def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    try:
        d = json.load(open(p))
    except FileNotFoundError:
        return []
    return [f for f in d["findings"] if f["property"] == pid]


def is_known(known, v):
    cls, detail = v
    for f in known:
        if f["class"] == cls and all(s in detail for s in f.get("match", [])):
            return f
    return None


def unlisted(known, vs):
    return [v for v in vs if not is_known(known, v)]


# ------------------------------------------------------------------------------------------------------- batch --
class Agg:
    def __init__(self):
        self.runs = self.seeds = self.events = self.lines = self.switches = self.ops = self.calls = 0
        self.sim_ns = 0
        self.faults = {}
        self.probes = {}
        self.reasons = {}
        self.extra = {}
        self.sched = set()
        self.states = set()
        self.faulty_runs = 0
        self.harness = []
        self.nontrivial = set()
        self.samples = []
        self.known_hits = {}

    def add(self, r):
        self.runs += 1
        if "harness" in r:
            self.harness.append(r["harness"])
            return
        self.events += r["events"]
        self.lines += r["lines"]
        self.switches += r["switches"]
        self.ops += r["ops"]
        self.calls += r["calls"]
        self.sim_ns += r["now"]
        self.sched.add(r["sched"])
        self.states.update(r["states"])
        if r["faults"]:
            self.faulty_runs += 1
        for src, dst in ((r["faults"], self.faults), (r["probes"], self.probes), (r["extra"], self.extra)):
            for a, b in src.items():
                dst[a] = dst.get(a, 0) + b
        self.reasons[r["reason"]] = self.reasons.get(r["reason"], 0) + 1

    def merge(self, o):
        for a in ("runs", "seeds", "events", "lines", "switches", "ops", "calls", "sim_ns", "faulty_runs"):
            setattr(self, a, getattr(self, a) + getattr(o, a))
        for a in ("faults", "probes", "reasons", "extra", "known_hits"):
            d = getattr(self, a)
            for x, y in getattr(o, a).items():
                d[x] = d.get(x, 0) + y
        self.sched |= o.sched
        self.states |= o.states
        self.harness += o.harness
        self.nontrivial |= o.nontrivial
        self.samples = (self.samples + o.samples)[:6]


def make_plan(rng, acts, weights=None):
    """Choose pre-emption points from the line counts of a pilot run."""
    cand = []
    for act, files in sorted(acts.items()):
        fam = act.split("#")[0]
        tot = {f: n for f, n in files.items() if n >= 3}
        if tot:
            cand.append((act, fam, tot))
    if not cand:
        return []
    plan = []
    nacts = rng.choice([1, 1, 2, 2, 3])
    for _ in range(nacts):
        act, fam, files = rng.choice(cand)
        fl = sorted(files)
        # the managers' files carry the concurrency; weigh them up
        pref = [f for f in fl if f.endswith("_manager") or f in ("node", "tree_node")]
        f = rng.choice(pref) if pref and rng.random() < 0.7 else rng.choice(fl)
        n = rng.randint(1, files[f])
        stall = rng.choice([0, 0, 50_000, 300_000, 1_000_000, 5_000_000, 30_000_000, 120_000_000, 400_000_000,
                            1_500_000_000])
        plan.append([act, f, n, stall])
        if rng.random() < 0.3:
            plan.append([act, f, min(files[f], n + rng.randint(1, 12)), rng.choice([0, 1_000_000, 100_000_000])])
    return plan


def seed_runs(prop, seed, i):
    """All scenarios derived from one seed: yields (scenario, feedback) lazily."""
    rng = random.Random(f"{prop.id}:{seed}:{i}")
    sc = prop.gen(rng, i)
    sc["seed"] = f"{seed}:{i}"
    sc["sched_seed"] = 0 if rng.random() < 0.35 else rng.randint(1, 1 << 30)
    sc.setdefault("plan", [])
    r = yield sc
    for variant in prop.variants(rng, sc, r):
        r = yield variant


def zygote(prop, seed, idx, njobs, total, deadline, known, wfd):
    agg = Agg()
    found = None
    i = idx
    while i < total and _now() < deadline and found is None:
        g = seed_runs(prop, seed, i)
        r = None
        agg.seeds += 1
        while True:
            try:
                sc = g.send(r)
            except StopIteration:
                break
            r = fork_run(prop, sc)
            if "harness" in r:
                r2 = fork_run(prop, sc)
                if "harness" not in r2:
                    r = r2
            agg.add(r)
            if "harness" not in r and prop.nontrivial(r):
                agg.nontrivial.add(int(r["hash"], 16))
                if len(agg.samples) < 2 and (sc.get("plan") or agg.runs > 6):
                    agg.samples.append(dict(scenario=sc, result=dict(reason=r["reason"], ops=r["ops"], calls=r["calls"], faults=r["faults"], hash=r["hash"])))
            if "harness" in r:
                agg.harness[-1] = f"scenario {json.dumps(sc)[:3000]}\n" + agg.harness[-1]
                break
            vs = unlisted(known, r["violations"])
            for v in r["violations"]:
                f = is_known(known, v)
                if f:
                    agg.known_hits[f["id"]] = agg.known_hits.get(f["id"], 0) + 1
            if vs:
                found = (i, sc, vs, r["hash"])
                break
        i += njobs
    data = pickle.dumps((agg, found))
    mv = memoryview(data)
    while mv:
        n = os.write(wfd, mv)
        mv = mv[n:]


def batch(prop, seed, total, jobs, deadline, known):
    fds = {}
    for idx in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            global SCRATCH
            SCRATCH = f"{os.path.dirname(SCRATCH)}/j{idx}"
            os.makedirs(SCRATCH, exist_ok=True)
            code = 0
            try:
                zygote(prop, seed, idx, jobs, total, deadline, known, w)
            except BaseException:  # noqa
                traceback.print_exc()
                sys.stderr.flush()
                code = 3
            os._exit(code)
        os.close(w)
        fds[r] = (pid, [])
    agg = Agg()
    founds = []
    while fds:
        rl, _, _ = select.select(list(fds), [], [])
        for r in rl:
            b = os.read(r, 1 << 20)
            if b:
                fds[r][1].append(b)
                continue
            os.close(r)
            pid, parts = fds.pop(r)
            os.waitpid(pid, 0)
            try:
                a, f = pickle.loads(b"".join(parts))
                agg.merge(a)
                if f:
                    founds.append(f)
            except Exception:
                agg.harness.append("worker died")
    founds.sort(key=lambda f: f[0])
    return agg, founds


# ------------------------------------------------------------------------------------------------- minimiser --
def get_path(sc, path):
    o = sc
    for p in path:
        o = o[p]
    return o


def set_path(sc, path, val):
    o = sc
    for p in path[:-1]:
        o = o[p]
    o[path[-1]] = val


def expand(sc, pattern):
    """Paths of lists named by a pattern such as 'clients.*.ops'."""
    outs = [()]
    for part in pattern.split("."):
        nxt = []
        for p in outs:
            try:
                o = get_path(sc, p)
            except (KeyError, IndexError):
                continue
            if part == "*":
                keys = range(len(o)) if isinstance(o, list) else sorted(o)
                nxt += [p + (k,) for k in keys]
            elif isinstance(o, dict) and part in o:
                nxt.append(p + (part,))
        outs = nxt
    return [p for p in outs if isinstance(get_path(sc, p), list)]


def minimise(prop, sc, cls, wall=MIN_WALL, known=()):
    end = _now() + wall
    tried = 0

    def fails(c):
        nonlocal tried
        tried += 1
        try:
            c = prop.fixup(copy.deepcopy(c))
        except Exception:
            return False
        if c is None:
            return False
        r = fork_run(prop, c, wall=20)
        if "harness" in r:
            return False
        return any(v[0] == cls for v in unlisted(known, r["violations"]))

    best = copy.deepcopy(sc)
    progress = True
    while progress and _now() < end:
        progress = False
        for pattern in prop.shrink_lists:
            for path in expand(best, pattern):
                try:
                    lst = get_path(best, path)
                except (KeyError, IndexError):
                    continue
                n = max(1, len(lst) // 2)
                while n >= 1 and _now() < end:
                    i = 0
                    while i < len(get_path(best, path)) and _now() < end:
                        cur = get_path(best, path)
                        c = copy.deepcopy(best)
                        set_path(c, path, cur[:i] + cur[i + n:])
                        if fails(c):
                            best = c
                            progress = True
                        else:
                            i += n
                    n //= 2
        for c in prop.shrink_more(best):
            if _now() > end:
                break
            if fails(c):
                best = c
                progress = True
    return prop.fixup(copy.deepcopy(best)), tried


# ------------------------------------------------------------------------------------------------------ main --
def write_replay(pid, sc, v, h, extra):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}-{v[0].replace('/', '_').replace(' ', '_')}-{h}.json")
    json.dump(dict(property=pid, violation=list(v), hash=h, scenario=sc, **extra), open(p, "w"), indent=1)
    return p


def evidence(pid, prop, tier, seed, agg, elapsed, found, known, total):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = dict(
        simulated_runs=agg.runs, seeds=agg.seeds, seeds_requested=total,
        runs_per_hour=round(agg.runs / max(elapsed, 1e-9) * 3600), seeds_per_hour=round(agg.seeds / max(elapsed, 1e-9) * 3600),
        simulated_seconds=round(agg.sim_ns / 1e9, 3), simulated_events=agg.events, source_lines_executed=agg.lines,
        context_switches=agg.switches, node_operations=agg.ops, client_requests=agg.calls,
        fault_kinds_injected=dict(sorted(agg.faults.items())), runs_with_faults=agg.faulty_runs,
        fault_free_runs=agg.runs - agg.faulty_runs,
        distinct_interleavings=len(agg.sched), interleaving_measure="hash of the sequence of thread hand-overs of a run",
        distinct_states=len(agg.states), state_measure="hash of (tree state, all node states) after each node operation",
        probes=dict(sorted(agg.probes.items())), end_reasons=agg.reasons,
        real_components=prop.real, stub_components=prop.stubs, known_finding_hits=agg.known_hits,
        harness_errors=len(agg.harness))
    cov.update({"count_" + a: b for a, b in sorted(agg.extra.items())})
    ev = prop.evidence_doc(tier, seed, cov, elapsed, found, known, agg)
    json.dump(ev, open(os.path.join(d, f"{pid}.json"), "w"), indent=1)


def cmd_check(a):
    global SCRATCH
    prop = load_prop(a.prop)
    t0 = _now()
    budget = a.budget or (prop.quick_budget if a.tier == "quick" else prop.thorough_budget)
    total = a.total or (prop.quick_total if a.tier == "quick" else prop.thorough_total)
    known = load_known(prop.id)
    seed = a.seed
    print(f"check {prop.id} tier={a.tier} seed={seed} seeds={total} jobs={a.jobs}")
    sys.stdout.flush()
    known_bad = []
    # pinned reproductions of known findings
    hits = {}
    for f in known:
        sc = json.load(open(os.path.join(VERIF, f["scenario"])))["scenario"]
        r = fork_run(prop, sc)
        if "harness" in r:
            known_bad.append("pinned scenario: " + r["harness"])
            continue
        if any(is_known([f], v) for v in r["violations"]):
            print(f"KNOWN-FINDING: property={prop.id} {f['what']}")
            hits[f["id"]] = 1
    # pinned regression scenarios first: shortest path to bugs that were already seen or planted once
    agg, founds = batch(prop, seed, total, a.jobs, _now() + budget, known)
    agg.harness += known_bad
    agg.known_hits.update({k: agg.known_hits.get(k, 0) + v for k, v in hits.items()})
    found = None
    if founds:
        i, sc, vs, h = founds[0]
        print(f"seed {seed}:{i} violates {prop.id}: {vs[0][0]}: {vs[0][1]}")
        sys.stdout.flush()
        small, tried = minimise(prop, sc, vs[0][0], known=known, wall=a.min_wall)
        r = fork_run(prop, small, want_trace=True)
        v = next((v for v in unlisted(known, r.get("violations", [])) if v[0] == vs[0][0]), None)
        if v is None:
            small, r = sc, fork_run(prop, sc, want_trace=True)
            v = next((v for v in unlisted(known, r.get("violations", [])) if v[0] == vs[0][0]), vs[0])
        path = write_replay(prop.id, small, v, r["hash"], dict(found_with=f"{seed}:{i}", minimiser_runs=tried,
                                                               original=sc, trace=r.get("trace", [])))
        print(f"minimised in {tried} runs: {v[0]}: {v[1]}")
        print(f"VIOLATION property={prop.id} replay={path}")
        found = dict(cls=v[0], detail=v[1], replay=path, seed=f"{seed}:{i}")
    elapsed = _now() - t0
    evidence(prop.id, prop, a.tier, seed, agg, elapsed, found, known, total)
    print(f"{prop.id}: {agg.runs} runs, {agg.seeds} seeds, {agg.sim_ns / 1e9:.0f} simulated s, "
          f"{len(agg.sched)} interleavings, {len(agg.states)} states, faults {agg.faults}, {elapsed:.1f} s wall")
    if found:
        return 1
    if agg.runs >= 40 and not agg.nontrivial:
        agg.harness.append("no run exercised the property")
    if agg.harness:
        print(f"HARNESS-ERROR ({len(agg.harness)}):\n" + agg.harness[0])
        return 2
    return 0


def cmd_replay(a):
    prop = load_prop(a.prop)
    d = json.load(open(a.file))
    r = fork_run(prop, d["scenario"], want_trace=True)
    if "harness" in r:
        print("HARNESS-ERROR", r["harness"])
        return 2
    if a.trace:
        print("\n".join(r["trace"]))
    for v in r["violations"]:
        print("violation:", v[0], ":", v[1])
    same = r["hash"] == d.get("hash")
    print("event log hash", r["hash"], "(identical to the recorded one)" if same else f"(recorded {d.get('hash')})")
    if r["violations"]:
        print(f"VIOLATION property={prop.id} replay={a.file}")
        return 1
    return 0


def cmd_determinism(a):
    """Print the event-log hash of many scenarios; used to diff across processes, worker counts and hash seeds."""
    prop = load_prop(a.prop)
    for i in range(a.start, a.start + a.total):
        g = seed_runs(prop, a.seed, i)
        r = None
        j = 0
        while True:
            try:
                sc = g.send(r)
            except StopIteration:
                break
            r = fork_run(prop, sc)
            print(prop.id, i, j, r["hash"], len(r.get("violations", [])), r.get("harness", "")[-200:])
            j += 1
    return 0


def main():
    global SCRATCH
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "determinism"])
    ap.add_argument("prop")
    ap.add_argument("file", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED") or "1")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--total", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--min-wall", type=float, default=60)
    ap.add_argument("--trace", action="store_true")
    a = ap.parse_args()
    import tempfile
    SCRATCH = tempfile.mkdtemp(prefix="btsim.") + "/p0"
    os.makedirs(SCRATCH)
    from . import world
    rc = 2
    try:
        try:
            world.boot()
            world.init_cmds()
        except Exception:
            traceback.print_exc()
            print("HARNESS-ERROR: boot failed")
            return 2
        gc.collect()
        gc.freeze()
        gc.disable()
        rc = {"check": cmd_check, "replay": cmd_replay, "determinism": cmd_determinism}[a.cmd](a)
    finally:
        shutil.rmtree(os.path.dirname(SCRATCH), ignore_errors=True)
    return rc


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
