"""C15 Sequence and fallback nodes implement their documented semantics."""
from ..nodeprop import NodeProp


class C15(NodeProp):
    id = "C15"
    quick_total = 200
    classes = {"Sequence", "MemorySequence", "Fallback", "MemoryFallback", "NameSwitch", "EnumSwitch"}
    comps = ["Sequence", "Fallback", "MemorySequence", "MemoryFallback", "NameSwitch", "EnumSwitch", "MemorySequence", "MemoryFallback", "Parallel"]
    roots = ["Sequence", "Fallback", "MemorySequence", "MemoryFallback", "NameSwitch", "EnumSwitch"]
    pdeco = 0.12
    rule = "a run counts when at least one operation of a sequence or fallback node was compared with its reference model"

    def nontrivial(self, r):
        return any(k.startswith("judged_") for k in r["extra"])


PROP = C15()
