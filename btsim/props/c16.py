"""C16 Parallel nodes implement their documented thresholds."""
from ..nodeprop import NodeProp


class C16(NodeProp):
    id = "C16"
    quick_total = 200
    classes = {"Parallel", "ParallelFailureTolerance"}
    comps = ["Parallel", "ParallelFailureTolerance", "Parallel", "ParallelFailureTolerance", "Sequence", "Fallback"]
    roots = ["Parallel", "ParallelFailureTolerance"]
    pdeco = 0.12
    rule = "a run counts when at least one operation of a parallel node was compared with its reference model"

    def nontrivial(self, r):
        return any(k.startswith("judged_") for k in r["extra"])


PROP = C16()
