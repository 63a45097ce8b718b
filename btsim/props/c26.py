"""C26 The tree is ticked at the requested rate."""
import math

from .. import base, execmodel
from ..base import MS, SEC


class C26(base.Session):
    id = "C26"
    quick_total = 260
    nvariants = 2
    rule = "a run counts when at least three ticks of one periodic execution were compared with the period"

    def nontrivial(self, r):
        return r["extra"].get("gaps", 0) >= 2

    def gen(self, rng, i):
        spec = base.gen_tree(rng, rng.choice([1, 1, 2, 3, 5]), decos=["Inverter", "RepeatAlways", "Throttle"])
        hz = rng.choice([1.0, 2.5, 5.0, 10.0, 20.0, 30.0, 100.0])
        rates, ops = [hz], []
        for _ in range(rng.randint(1, 4)):
            c = rng.choice(["TICK_PERIODICALLY"] * 4 + ["TICK_UNTIL_RESULT"])
            op = {"op": "control", "cmd": c, "wait": 0}
            if rng.random() < 0.6:
                op["rate"] = rng.choice([0.7, 3.0, 7.0, 15.0, 25.0, 50.0, 200.0] * 3 + [-1.0, float("inf"), float("nan")])
                rates.append(op["rate"])
            ops.append(op)
            for _ in range(rng.choice([0, 0, 1, 2])):
                # commands that must be refused while the tree runs, without effect on its rate
                ops.append({"op": "control", "cmd": rng.choice(["TICK_PERIODICALLY", "TICK_UNTIL_RESULT", "TICK_ONCE", "RESET"]),
                            "rate": rng.choice([0.0, 1.5, 4.0, 80.0]), "wait": rng.choice([50, 250, 700]) * MS})
            x = rng.choice([4, 9, 14, 25])
            ops.append({"op": "control", "cmd": "STOP", "periods": x, "wait": 0})
            if rng.random() < 0.3:
                ops.append({"op": "control", "cmd": rng.choice(["TICK_ONCE", "RESET", "SHUTDOWN", "STOP"]), "wait": rng.choice([0, 130]) * MS})
        rate = hz
        for op in ops:
            if op["cmd"] in ("TICK_PERIODICALLY", "TICK_UNTIL_RESULT") and not op["wait"]:
                rate = eff(op.get("rate", 0.0), rate)
            if "periods" in op:
                op["wait"] = int(min(op["periods"] / rate, 12.0) * SEC)
        p = 1.0 / min([r for r in rates if math.isfinite(r) and r > 0])
        q = 1.0 / max([r for r in rates if math.isfinite(r) and r > 0])
        kind = rng.choice(["fast", "fast", "slow", "slow", "any"])
        n = max(1, len(base.leaves(spec)))
        leaf = {}
        for name in base.leaves(spec):
            seq = []
            for _ in range(rng.randint(2, 20)):
                d = 0.0
                if kind == "fast":
                    d = rng.choice([0, 0, 0.1, 0.3, 0.6, 0.9]) * q / n
                elif rng.random() < 0.4:
                    d = rng.choice([0.05, 0.4, 0.95, 1.3, 1.99, 2.6, 3.5, 7.2]) * rng.choice([p, q]) / n
                seq.append({"r": rng.choice("SFR"), "d": int(min(d, 4.0) * SEC)})
            leaf[name] = {"tick": seq}
        sc = dict(tree=spec, leaf=leaf, clients=[{"name": "c1", "ops": ops}], hz=hz)
        if rng.random() < 0.12:
            sc["clock"] = [{"at": rng.randint(200, 5000) * MS, "jump": rng.choice([-3600, -1, 1, 20]) * SEC // rng.choice([1, 2])}]
        return sc

    def check(self, w, sc):
        if self.died(w):
            return
        calls, loops = execmodel.collect(w)
        jumps = [c["at"] for c in sc.get("clock", [])]
        stall = sum(p[3] for p in sc.get("plan", []))
        # the rate each loop was asked for
        rate = sc["hz"]
        rates = {}
        for c in sorted(calls, key=lambda c: c.s0):
            o = c.op
            if c.resp is None or not c.resp.success or o.get("cmd") not in ("TICK_PERIODICALLY", "TICK_UNTIL_RESULT"):
                continue
            rate = eff(o.get("rate", 0.0), rate)
            for lb, x in loops.items():
                if c.started is not None and x.spawn >= c.started and (c.ended is None or x.spawn <= c.ended):
                    rates[lb] = rate
        freq = [(seq, t, m.data) for seq, t, m in w.msgs("~/debug/tick_frequency")]
        warn = [(seq, t, m) for seq, t, m in w.msgs("~/log_messages") if m.level == 30 and "Hz" in m.msg and "tick" in m.msg.lower()]
        for lb in sorted(rates):
            P = SEC / rates[lb]
            ticks = [d for d in w.ops if d["thr"] == lb and d["depth"] == 0 and d["op"] == "tick"]
            ok = [d for d in ticks if d["t1"] is not None and d["res"] and not d["res"].startswith(("ERR", "EXC"))]
            if len(ok) != len(ticks) or len(ticks) < 2:
                ticks = ok
            s = [d["t0"] for d in ticks]
            dur = [d["t1"] - d["t0"] for d in ticks]
            tol = 2000 + stall
            for i in range(1, len(ticks)):
                gap = s[i] - s[i - 1]
                w.k.count("gaps", 1)
                if gap > max(P, dur[i - 1]) + P + tol:
                    return w.violation("late", f"tick {i} began {gap / MS:.3f} ms after tick {i - 1}, which took {dur[i - 1] / MS:.3f} ms, at {rates[lb]} Hz")
                if i >= 2 and max(dur[i - 2:i]) + tol < P and abs(gap - P) > tol and self.steady(dur, i, P, tol):
                    return w.violation("period", f"tick {i} began {gap / MS:.3f} ms after tick {i - 1} at {rates[lb]} Hz with fast nodes")
                for j in range(max(0, i - 30), i - 1):
                    # one period may be made up for after each slow tick, never more
                    n = (i - j) - (s[i] - s[j] + tol) / P
                    if n > 1.0 + 1e-6:
                        return w.violation("burst", f"{i - j} ticks began within {(s[i] - s[j]) / MS:.3f} ms at {rates[lb]} Hz")
            if all(d + tol < P for d in dur) and len(ticks) > 2:
                w.k.count("fast_loops", 1)
                for i in range(2, len(ticks)):
                    if abs(s[i] - s[1] - (i - 1) * P) > tol + i:
                        return w.violation("drift", f"tick {i} began {(s[i] - s[1]) / MS:.3f} ms after tick 1 at {rates[lb]} Hz with fast nodes")
            if stall:
                continue
            for i, d in enumerate(ticks):
                a = d["s1"]
                b = ticks[i + 1]["s0"] if i + 1 < len(ticks) else None
                if b is None:
                    break
                if jumps and any(d["t0"] <= x <= d["t1"] for x in jumps):
                    continue
                got = sum(1 for x in warn if a <= x[0] <= b)
                if abs(dur[i] - P) > 1000 and got != (1 if dur[i] > P else 0):
                    return w.violation("overrun", f"a tick that took {dur[i] / MS:.3f} ms at {rates[lb]} Hz was followed by {got} over-run warnings")
                w.k.count("overruns" if got else "no_overruns", 1)
                # reported frequency, once the window holds only ticks of this execution
                gaps = [s[k] - s[k - 1] for k in range(1, i + 1) if s[k] > s[k - 1]][-10:]
                if len(gaps) == 10 and not jumps:
                    f = [x for x in freq if a <= x[0] <= b]
                    want = sum(SEC / g for g in gaps) / 10
                    if len(f) != 1:
                        return w.violation("frequency_missing", f"tick {i} was followed by {len(f)} tick frequency messages")
                    if abs(f[0][2] - want) > 1e-3 * want:
                        return w.violation("frequency", f"after tick {i} the reported tick frequency is {f[0][2]:.4f} Hz, the last ten periods had {want:.4f} Hz on average")
                    w.k.count("frequencies", 1)

    @staticmethod
    def steady(dur, i, P, tol):
        """No over-run since at least three ticks: the ticks are aligned with the period again."""
        return i >= 4 and all(d + tol < P for d in dur[i - 4:i])

def eff(r, cur):
    if r == 0:
        return cur
    return r if math.isfinite(r) and r > 0 else 10.0


PROP = C26()
