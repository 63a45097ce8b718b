"""Library nodes with all kinds of options: types, values, texts that are awkward to store."""
import copy
import json

from . import editgen
from . import tree as T

# (U+0085 is a known finding of C11)
TEXT = ["", "a", "plain text", "yes", "null", "~", "1e3", "0x10", "1_000", "2024-01-01", "12:30:00", "- x", "key: value", "# no comment", " lead", "trail ", "a\nb",
        "a\n\n  b\n", "tab\there", "'q'", '"dq"', "\\n", "{a: 1}", "[1, 2]", "*alias", "&anchor", "!tag", "%x", "@x", "`x`", "ü", "日本語", "🤖", "\u2028", "\x07",
        "\x1b[0m", "\ufeff", "...", "---", "? x", "| ", "> ", "=", "<<", "x" * 300, "{} {:d}", "a b  c", "\r\n", "true", "/disk"]
NAMES = [t for t in TEXT if t] + ["node", "node"]
INTS = [0, 1, -1, 7, 2 ** 31, -2 ** 31, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63]
FLOATS = [0.0, -0.0, 0.1, 1.0, -2.5, 1e300, 1e-300, 123456789.123456789, 1e16, 3, 0.30000000000000004]
MSGS = ["std_msgs/msg/String", "std_msgs/msg/Int64", "std_msgs/msg/Bool", "ros_bt_py_interfaces/msg/NodeState", "example_interfaces/msg/Empty"]


def types(rng, depth=2):
    """A type value as the options hold it, and a function making values of it."""
    k = rng.choice(["b", "i", "i", "f", "s", "s"] + (["l", "d"] if depth else []))
    if k == "b":
        return {"type_identifier": 1}, lambda: rng.random() < 0.5
    if k == "i":
        lo, hi = rng.choice([(-2 ** 63, 2 ** 63 - 1), (-2 ** 63, 2 ** 63 - 1), (0, 10), (-128, 127)])
        return {"type_identifier": 2, "min_value": str(lo), "max_value": str(hi)}, lambda: rng.choice([x for x in INTS if lo <= x <= hi])
    if k == "f":
        lo, hi = rng.choice([(-1.7976931348623157e308, 1.7976931348623157e308)] * 2 + [(0.0, 10.0)])
        return {"type_identifier": 3, "min_value": str(lo), "max_value": str(hi)}, lambda: float(rng.choice([x for x in FLOATS if lo <= x <= hi]))
    if k == "s":
        n = rng.choice([2 ** 53 - 1, 2 ** 53 - 1, 400])
        return {"type_identifier": 4, "max_length": n}, lambda: rng.choice(TEXT)
    e, v = types(rng, depth - 1)
    n = rng.choice([2 ** 53 - 1, 5])
    t = {"type_identifier": 5 if k == "l" else 6, "max_length": n, "strict_length": False, "element_type": e}
    if k == "l":
        return t, lambda: [v() for _ in range(rng.randint(0, 3))]
    return t, lambda: {rng.choice(TEXT): v() for _ in range(rng.randint(0, 3))}


def node(rng, name):
    """One leaf of the library."""
    t, v = types(rng)
    tx = lambda: rng.choice(TEXT)  # noqa
    k = rng.randrange(19)
    if k <= 3:
        return {"c": "Constant", "n": name, "i": {"constant_type": t, "constant_value": v()}}
    if k == 4:
        return {"c": "StringConcatenation", "n": name, "i": {"a": tx(), "b": tx()}}
    if k == 5:
        return {"c": "FormatString", "n": name, "i": {"format_string": rng.choice([tx(), "{a}", "{a} {b}"]), "dict": {"a": tx(), "b": tx()}}}
    if k == 6:
        return {"c": rng.choice(["Compare", "CompareNewOnly"]), "n": name, "i": {"compare_type": t, "a": v(), "b": v()}}
    if k == 7:
        lt = {"type_identifier": 5, "max_length": 2 ** 53 - 1, "strict_length": False, "element_type": t}
        return {"c": "IsInList", "n": name, "i": {"compare_type": t, "list": [v(), v()], "in": v()}} if rng.random() < 0.5 else \
            {"c": "Constant", "n": name, "i": {"constant_type": lt, "constant_value": [v(), v()]}}
    if k == 8:
        return {"c": rng.choice(["IOInput", "IOOutput", "PassthroughNode"]), "n": name, "i": {"io_type": t}, "dyn": ["in"]}
    if k == 9:
        return {"c": "Wait", "n": name, "i": {"seconds_to_wait": rng.choice([0.0, 0.037, 0.25])}}
    if k == 10:
        return {"c": "TopicPublisher", "n": name, "i": {"topic_name": rng.choice(["/a", "/b/c"]), "topic_type": rng.choice(MSGS[:3]), "reliable": rng.random() < 0.5,
                                                        "transient_local": rng.random() < 0.5, "depth": rng.choice([0, 1, 10])}}
    if k == 11:
        return {"c": rng.choice(["TopicSubscriber", "TopicMemorySubscriber"]), "n": name, "i": {"topic_name": "/a", "topic_type": rng.choice(MSGS[:3]),
                                                                                               "depth": rng.choice([0, 1, 10])}}
    if k == 12:
        return {"c": "MessageToFields", "n": name, "i": {"input_type": rng.choice(MSGS[:4])}, "dyn": ["in"]}
    if k == 13:
        return {"c": "FieldsToMessage", "n": name, "i": {"output_type": rng.choice(MSGS)}}
    if k == 14:
        return {"c": "Service", "n": name, "i": {"service_type": rng.choice(["std_srvs/srv/SetBool", "std_srvs/srv/Trigger"]), "service_name": "/svc",
                                                 "wait_for_response_seconds": rng.choice(FLOATS[:5] + [0.3])}}
    if k == 15:
        return {"c": "EnumFields", "n": name, "i": {"ros_message_type": rng.choice(MSGS + ["ros_bt_py_interfaces/msg/NodeState"])}}
    if k == 16:
        return {"c": "Operation", "n": name, "i": {"operand_type": {"type_identifier": 2, "min_value": str(-2 ** 63), "max_value": str(2 ** 63 - 1)},
                                                   "operator": rng.choice(["+", "-", "*", "%", "?"]), "a": rng.choice(INTS[:5]), "b": rng.choice(INTS[:5])}}
    if k == 17:
        return {"c": "Convert", "n": name, "i": {"input_type": t, "output_type": types(rng, 0)[0], "in": v()}}
    return {"c": "SimData", "n": name, "i": {"text": tx(), "map": {tx(): rng.choice(INTS) for _ in range(rng.randint(0, 2))}, "items": [rng.choice(INTS)]},
            "dyn": ["num"] if rng.random() < 0.5 else []}


def put(rng, spec, p=0.5, without=()):
    """Replace some leaves of a tree by library nodes; decorators with options around some nodes."""
    out = copy.deepcopy(spec)
    for s in list(T.names(out)):
        if not s.get("ch") and s["c"] in ("SimLeaf", "SimPicky") and rng.random() < p:
            n = s["n"]
            s.clear()
            x = node(rng, n)
            while x["c"] in without:
                x = node(rng, n)
            s.update(x)
        elif s["c"] == "Inverter" and rng.random() < p:
            c, i = rng.choice([("Throttle", {"tick_interval": 0.037}), ("Retry", {"num_retries": 2}), ("Repeat", {"num_repeats": 2}), ("IgnoreFailure", {}),
                               ("IgnoreRunning", {"running_is_success": True}), ("ThrottleSuccess", {"tick_interval": 0.25})])
            s["c"], s["i"] = c, i
    return out


_ = (json, editgen)
