"""Reference models of the library's data nodes: what they must answer and put on their outputs for the inputs they hold.
The result of tick() is a set of allowed results; self.alts lists the allowed (result, outputs) pairs, outputs that are
not mentioned must stay as they were, ANY leaves one open."""
import math
import operator
import os

import yaml

from .models import M, R, S, F

ANY = object()
INT64 = (-2 ** 63, 2 ** 63 - 1)
BAD = {"ERR", "EXC"}


PY = {1: bool, 2: int, 3: float, 4: str, 5: list, 6: dict}


def typ(x):
    return PY[x["type_identifier"]] if isinstance(x, dict) else x


class Data(M):
    def give(self, *alts):
        """alts: (result, outputs) pairs"""
        self.n.d["alts"] = [a for a in alts if a[0] not in BAD]
        return {a[0] for a in alts}

    def tick(self):
        return self.give(*self.value())
        yield

    def v(self, k):
        return self.n.inp[k][0]

    def new(self, *keys):
        return any(self.n.inp[k][1] for k in keys)


def known(f):
    """A model given by an expression for the outputs."""
    return type(f.__name__, (Data,), {"value": lambda self: [(S, f(self))]})


@known
def Constant(n):
    return {"constant": n.v("constant_value")}


@known
def PassthroughNode(n):
    return {"out": n.v("in")}


@known
def ListLength(n):
    return {"length": len(n.v("list"))}


@known
def InsertInList(n):
    out = list(n.v("list"))
    out[n.v("index"):n.v("index")] = [n.v("element")]
    return {"list": out}


@known
def AppendListItem(n):
    return {"new_list": [*n.v("list"), n.v("value")]}


@known
def SetDictItem(n):
    return {"new_object": {**n.v("object"), n.v("attr_name"): n.v("attr_value")}}


@known
def StringConcatenation(n):
    return {"formatted_string": n.v("a") + n.v("b")}


@known
def GetFileExtension(n):
    # the extension starts at the last dot of the last component, dots at its beginning do not count
    p = n.v("path")
    j = len(p) - len(p.split("/")[-1])
    k = j + len(p[j:]) - len(p[j:].lstrip("."))
    e = p.rfind(".", k)
    return {"filename": p, "extension": ""} if e < 0 else {"filename": p[:e], "extension": p[e:]}


class Cond(Data):
    def value(self):
        return [(S if self.true() else F, {})]


class Compare(Cond):
    def true(self):
        return self.v("a") == self.v("b")


class CompareNewOnly(Compare):
    def value(self):
        return super().value() if self.new("a", "b") else [(R, {})]


class ALessThanB(Cond):
    def true(self):
        return self.v("a") < self.v("b")


class IsInList(Cond):
    def true(self):
        return self.v("in") in self.v("list")


OPS = {"add": operator.add, "+": operator.add, "and": operator.and_, "&": operator.and_, "div": operator.truediv, "/": operator.truediv,
       "floordiv": operator.floordiv, "//": operator.floordiv, "mod": operator.mod, "%": operator.mod, "mul": operator.mul, "*": operator.mul,
       "or": operator.or_, "|": operator.or_, "sub": operator.sub, "-": operator.sub, "truediv": operator.truediv, "xor": operator.xor,
       "^": operator.xor, "<<": operator.lshift, "rshift": operator.rshift, "**": operator.pow}
UNARY = {"not": operator.not_, "inv": operator.inv, "~": operator.inv, "neg": operator.neg, "-": operator.neg, "pos": operator.pos, "+": operator.pos,
         "ceil": math.ceil, "floor": math.floor, "factorial": math.factorial, "sqrt": math.sqrt, "fabs": math.fabs, "cos": math.cos}


class Operation(Data):
    def compute(self):
        return OPS[self.v("operator")](self.v("a"), self.v("b"))

    def value(self):
        try:
            r = self.compute()
        except Exception:
            return [("ERR", {}), ("EXC", {}), (F, {})]
        t = self.n.inp[self.arg][0]
        if type(r) is type(t) and (type(r) is not int or INT64[0] <= r <= INT64[1]):
            return [(S, {"result": r})]
        if isinstance(r, int) and isinstance(t, float):
            return [(S, {"result": float(r)}), ("ERR", {}), ("EXC", {})]
        return [("ERR", {}), ("EXC", {}), (F, {}), (S, {"result": r})]
    arg = "a"


class UnaryOperation(Operation):
    arg = "in"

    def compute(self):
        return UNARY[self.v("operator")](self.v("in"))


class Convert(Data):
    """int, bool and str; the types are given by the examples in the options"""

    def setup(self):
        yield from ()
        a, b = typ(self.n.opt["input_type"]), typ(self.n.opt["output_type"])
        if a is not b and b is not str and (a, b) not in ((int, bool), (bool, int), (int, float), (float, int)):
            return {"ERR"}
        return {"IDLE"}

    def value(self):
        x, b = self.v("in"), typ(self.n.opt["output_type"])
        try:
            r = b(x) if b is not typ(self.n.opt["input_type"]) else x
        except Exception:
            return [("ERR", {}), ("EXC", {}), (F, {})]
        if b is int and not INT64[0] <= r <= INT64[1]:
            return [("ERR", {})]
        return [(S, {"out": r})]


class RandomInt(Data):
    def value(self):
        a, b = self.v("min"), self.v("max")
        if a >= b:
            return [("ERR", {})]
        return [(S, {"random_number": (lambda x: isinstance(x, int) and a <= x <= b)})]


def render(fmt, d):
    """Independent formatter: {name}, {name!c} with c in u l c s r a, {{ and }}; None if it cannot be formatted"""
    out, i = "", 0
    while i < len(fmt):
        c = fmt[i]
        if fmt[i:i + 2] in ("{{", "}}"):
            out, i = out + c, i + 2
            continue
        if c == "}":
            return None
        if c != "{":
            out, i = out + c, i + 1
            continue
        j = fmt.find("}", i)
        if j < 0:
            return None
        name, bang, conv = fmt[i + 1:j].partition("!")
        if name not in d:
            return None
        x = d[name]
        if bang and conv not in tuple("ulcsra"):
            return None
        f = {"u": lambda: str(x).upper(), "l": lambda: str(x).lower(), "c": lambda: str(x).capitalize(), "s": lambda: str(x), "r": lambda: repr(x),
             "a": lambda: ascii(x), "": lambda: format(x, "")}[conv]
        out, i = out + f(), j + 1
    return out


class FormatString(Data):
    def value(self):
        r = render(self.v("format_string"), self.v("dict"))
        return [(F, {})] if r is None else [(S, {"formatted_string": r})]


class FormatStringList(Data):
    def value(self):
        r = [render(x, self.v("dict")) for x in self.v("format_strings")]
        return [(F, {})] if None in r else [(S, {"formatted_strings": r})]


class MessageToFields(Data):
    def value(self):
        m = self.v("in")
        return [(S, {k: getattr(m, k) for k in m.get_fields_and_field_types()})]


class FieldsToMessage(Data):
    def value(self):
        m = self.n.opt["output_type"]()
        for k in m.get_fields_and_field_types():
            setattr(m, k, self.v(k))
        return [(S, {"out": m})]


class EnumFields(Data):
    def value(self):
        m = self.n.opt["ros_message_type"]
        return [(S, {k: getattr(m, k) for k in CONSTANTS[m.__name__]})]


CONSTANTS = {"NodeState": ["UNINITIALIZED", "IDLE", "UNASSIGNED", "ASSIGNED", "RUNNING", "SUCCEEDED", "SUCCEED", "SUCCESS", "FAILED", "FAIL", "FAILURE",
                           "BROKEN", "PAUSED", "SHUTDOWN"], "String": []}


class SetAttr(Data):
    def value(self):
        import copy
        m = copy.deepcopy(self.v("object"))
        if not hasattr(m, self.v("attr_name")):
            return [("ERR", {}), ("EXC", {}), (F, {})]
        setattr(m, self.v("attr_name"), self.v("attr_value"))
        return [(S, {"new_object": m})]


class RosParam(Data):
    def value(self):
        p = self.n.w.params.get(self.v("param_name"), ANY)
        if p is ANY:
            return [(F, {})]
        return [(S, {"param": self.v("default_value") if p is None else p})]


class Getter(Data):
    """Ticks its child first, then looks at its inputs."""

    def tick(self):
        for c in self.n.children:
            r = yield "tick", c
            if r in (F, R):
                self.n.d["alts"] = [(r, {})]
                return {r}
            self.n.inp = self.n.kids[-1].get("parent_in") or self.n.inp
        if any(x[0] is None for x in self.n.inp.values()):
            self.n.d["alts"] = []
            return BAD
        try:
            out = self.get()
        except (IndexError, KeyError, AttributeError):
            return self.give((F, {}))
        return self.give((S, {self.out: out}) if self.new(*self.keys) or self.n.opt["succeed_on_stale_data"] else (R, {}))


class GetListItem(Getter):
    keys, out = ("list", "index"), "item"

    def get(self):
        return self.v("list")[self.v("index")]


class GetDictItem(Getter):
    keys, out = ("dict", "key"), "value"

    def get(self):
        return self.v("dict")[self.v("key")]


class GetMultipleDictItems(Getter):
    keys, out = ("dict", "keys"), "values"

    def get(self):
        return [self.v("dict")[k] for k in self.v("keys")]


class GetAttr(Getter):
    keys, out = ("object", "attr_name"), "attr"

    def get(self):
        return getattr(self.v("object"), self.v("attr_name"))


class IterateList(Data):
    def init(self):
        self.at, self.fresh = 0, True

    def tick(self):
        lst = self.v("list")
        if self.new("list"):
            self.init()
        if not lst:
            self.n.d["alts"] = [(S, {})]
            yield "all", "untick", self.n.children
            return {S}
        alts = self.n.d["alts"] = []
        out = {"list_item": lst[self.at]}
        r = S
        if self.n.children:
            if self.fresh:
                self.fresh = False
                return self.give((R, out))
            r = yield "tick", self.n.children[0]
        if r == S:
            self.at, self.fresh = self.at + 1, True
            if self.at < len(lst):
                r = R
            else:
                self.init()
        elif r != F:
            r = R
        alts.append((r, out))
        return {r}


class Yaml(Data):
    def init(self):
        self.cached = None

    def tick(self):
        if self.new("file_path"):
            self.cached = None
        if self.cached is None:
            alts = [a for x in self.n.w.contents(self.v("file_path"), self.n.d) for a in self.outcome(x)]
            if self.n.d["res"] in (S, F):
                self.cached = self.n.d["res"]
        else:
            alts = [(self.cached, {})]
        return self.give(*alts)
        yield

    FAIL = (F, {"load_success": False, "load_error_msg": lambda x: isinstance(x, str) and x})

    def outcome(self, x):
        """x: bytes, or None if there is nothing to read"""
        try:
            data = yaml.safe_load(x.decode("utf-8"))
        except Exception:
            return [self.FAIL]
        if not isinstance(data, self.kind):
            return [self.FAIL]
        ok, content = self.elements(data)
        good = (S, dict(load_success=True, load_error_msg="", content=content, **self.more(data)))
        if not ok:
            return [self.FAIL, ("ERR", {}), ("EXC", {}), good]
        return [good] if data else [good, self.FAIL]

    def fits(self, x):
        t = typ(self.n.opt["element_type"])
        return type(x) is t and (t is not int or INT64[0] <= x <= INT64[1])


class YamlList(Yaml):
    kind = list

    def more(self, data):
        return {"line_count": len(data)}

    def elements(self, data):
        return all(map(self.fits, data)), data


class YamlDict(Yaml):
    kind = dict

    def more(self, data):
        return {}

    def elements(self, data):
        return all(map(self.fits, data.values())), {str(k): v for k, v in data.items()}


_ = os
DATA = {c.__name__: c for c in (
    Constant, PassthroughNode, ListLength, InsertInList, AppendListItem, SetDictItem, StringConcatenation, GetFileExtension, Compare, CompareNewOnly,
    ALessThanB, IsInList, Operation, UnaryOperation, Convert, RandomInt, FormatString, FormatStringList, MessageToFields, FieldsToMessage, EnumFields,
    SetAttr, RosParam, GetListItem, GetDictItem, GetMultipleDictItems, GetAttr, IterateList, YamlList, YamlDict)}
