"""C09 A refused edit leaves the tree unchanged."""
from .. import editmodel
from .c08 import EditProp


class C09(EditProp):
    id = "C09"
    quick_total = 200
    nvariants = 1
    nops = (5, 16)
    rule = "a run counts when at least one edit was made; distinct by the hash of its whole event log"

    def nontrivial(self, r):
        return True

    def check(self, w, sc):
        if self.died(w):
            return
        for c in self.edits(w):
            if c.resp.success or not c.alone:
                continue
            d = editmodel.diff(full(c.before), full(c.after))
            if d is None and c.before["rate"] != c.after["rate"] and c.before["rate"] == c.before["rate"]:
                d = f"tick rate {c.before['rate']} became {c.after['rate']}"
            if d is None and c.before["state"] != c.after["state"]:
                d = f"tree state {c.before['state']} became {c.after['state']}"
            if d:
                w.violation("refused_changed", f"{c.srv} was refused but changed the tree: {d}")
                return
            if not c.resp.error_message:
                w.violation("no_reason", f"{c.srv} was refused without a reason")
                return


def full(v):
    """Everything that has to stay as it was, wirings in their order."""
    x = editmodel.comparable(v)
    for i, n in v["nodes"].items():
        x["nodes"][i]["parent"] = n["parent"]
        x["nodes"][i]["same"] = n["same"]
    return x


PROP = C09()
