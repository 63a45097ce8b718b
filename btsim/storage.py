"""Watching the stored files: every change any process step makes to them, and what a complete tree file is."""
import os

import yaml

from . import disk as D
from . import kernel, stubs

Loader = getattr(yaml, "CSafeLoader", yaml.SafeLoader)


def read_all(root):
    out = {}
    for base, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            try:
                with D._r["open"](p, "rb") as h:
                    out[p] = h.read()
            except OSError:
                pass
    return out


class Watch:
    """history: (log position, thread, kind, call being served, {path: (old, new)})"""

    def __init__(self, w):
        self.w = w
        self.history = []
        self.now = read_all(w.scratch)
        self.initial = dict(self.now)
        self.dirs = {b for b, _, _ in os.walk(w.scratch)}      # every directory that ever existed
        w.disk.watch = self.look

    def look(self, kind):
        me = kernel.current()
        if kind == "mkdir":
            self.dirs |= {b for b, _, _ in os.walk(self.w.scratch)}
            return
        cur = read_all(self.w.scratch)
        diff = {p: (self.now.get(p), cur.get(p)) for p in sorted(set(self.now) | set(cur)) if self.now.get(p) != cur.get(p)}
        self.now = cur
        if diff:
            self.history.append((len(self.w.k.log), me.name, kind, getattr(me, "serving", None), diff))

    def at(self, seq):
        """The files at a position of the log."""
        state = dict(self.initial)
        for s, _, _, _, diff in self.history:
            if s > seq:
                break
            for p, (_, n) in diff.items():
                if n is None:
                    state.pop(p, None)
                else:
                    state[p] = n
        return state


_parsed = {}


def parse(data):
    """The tree a file holds, as plain data (None: not a complete tree file)."""
    if data not in _parsed:
        try:
            d = yaml.load(data.decode(), Loader=Loader)
            _parsed[data] = d if isinstance(d, dict) and "version" in d else None
        except Exception:
            _parsed[data] = None
    return _parsed[data]


def plain(tree):
    d = stubs.message_to_ordereddict(tree)
    d["path"] = ""
    return _dictify(d)


def _dictify(x):
    if isinstance(x, dict):
        return {k: _dictify(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_dictify(v) for v in x]
    return x


def holds(data, tree):
    """Is this the complete content of a file holding the tree?"""
    if data is None:
        return False
    d = parse(data)
    if d is None:
        return False
    d = {k: v for k, v in d.items() if k != "version"}
    return d == tree
