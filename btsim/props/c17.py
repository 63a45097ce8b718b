"""C17 Decorator nodes implement their documented semantics."""
from ..nodeprop import NodeProp

DECOS = ["Inverter", "IgnoreFailure", "IgnoreSuccess", "IgnoreRunning", "UntilSuccess", "Retry", "Repeat", "RepeatUntilFail",
         "RepeatIfFail", "RepeatAlways", "Optional", "Watch", "RepeatNoAutoReset", "Retry", "Repeat"]


class C17(NodeProp):
    id = "C17"
    quick_total = 200
    classes = set(DECOS)
    comps = ["Sequence", "Fallback", "Parallel", "SimPair"]
    decos = DECOS
    pdeco = 0.6
    rule = "a run counts when at least one operation of a decorator was compared with its reference model"

    def nontrivial(self, r):
        return any(k.startswith("judged_") for k in r["extra"])


PROP = C17()
