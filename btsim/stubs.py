"""Stand-ins for ROS packages that are not installed here (rosidl_runtime_py, example_interfaces, generated
parameters). Behaviour follows the upstream implementations."""
import array
import importlib
import sys
import types

import numpy
import yaml
from rosidl_parser.definition import AbstractNestedType, NamespacedType


def _import_namespaced(t):
    module = importlib.import_module(".".join(t.namespaces))
    return getattr(module, t.name)


def set_message_fields(msg, values, expand_header_auto=False, expand_time_now=False):
    try:
        items = values.items()
    except AttributeError:
        raise ValueError("Value '%s' is expected to be a dictionary but is a %s" % (values, type(values).__name__))
    for field_name, field_value in items:
        field = getattr(msg, field_name)
        field_type = type(field)
        if field_type is array.array:
            value = field_type(field.typecode, field_value)
        elif field_type is numpy.ndarray:
            value = numpy.array(field_value, dtype=field.dtype)
        elif type(field_value) is field_type:
            value = field_value
        else:
            try:
                value = field_type(field_value)
            except TypeError:
                value = field_type()
                set_message_fields(value, field_value)
        slots = dict(zip(msg.get_fields_and_field_types().keys(), msg.SLOT_TYPES))
        rosidl_type = slots[field_name]
        if isinstance(rosidl_type, AbstractNestedType) and isinstance(rosidl_type.value_type, NamespacedType):
            elem = _import_namespaced(rosidl_type.value_type)
            for n in range(len(value)):
                sub = elem()
                set_message_fields(sub, value[n])
                value[n] = sub
        setattr(msg, field_name, value)
    return []


def _conv(v):
    if hasattr(v, "get_fields_and_field_types"):
        return {k: _conv(getattr(v, k)) for k in v.get_fields_and_field_types()}
    if isinstance(v, (list, tuple)):
        return [_conv(x) for x in v]
    if isinstance(v, array.array):
        return v.tolist()
    if isinstance(v, numpy.ndarray):
        return v.tolist()
    if isinstance(v, numpy.generic):
        return v.item()
    if isinstance(v, bytes):
        return list(v)
    return v


def message_to_ordereddict(msg, *, no_arr=False, no_str=False):
    return _conv(msg)


def message_to_yaml(msg, *, flow_style=False, **kw):
    return yaml.dump(_conv(msg), allow_unicode=True, default_flow_style=flow_style, width=sys.maxsize, sort_keys=False)


_PKGS = {
    "std_msgs": {"msg": ["String", "Int64", "Bool"]},
    "std_srvs": {"srv": ["SetBool", "Trigger"]},
    "example_interfaces": {"msg": ["Empty"], "srv": ["Trigger"], "action": ["Fibonacci"]},
}


def ifaces():
    from . import ros
    return (ros.W.sc.get("ifaces") if ros.W is not None else None) or _PKGS


def get_interface_packages():
    return {k: "" for k in ifaces()}


def _ifs(kind):
    def get(packages=[]):
        known = ifaces()
        return {p: [f"{kind}/{n}" for n in known[p].get(kind, [])] for p in packages if p in known}
    return get


def _split(identifier):
    parts = identifier.split("/", 1) if identifier.count("/") == 1 else identifier.split("/")
    if len(parts) == 1 or not all(parts):
        raise ValueError(f"Invalid name '{identifier}'. Expected at least two parts separated by '/'")
    return parts


def _get(default, check, what):
    def f(identifier):
        parts = _split(identifier)
        if len(parts) == 2:
            parts = [parts[0], default, parts[1]]
        m = importlib.import_module(".".join(parts[:-1]))
        i = getattr(m, parts[-1])
        if not check(i):
            raise ValueError(f"Expected '{identifier}' to be a {what}")
        return i
    return f


def is_message(t):
    return hasattr(t, "get_fields_and_field_types") if isinstance(t, type) else False


def is_service(t):
    return isinstance(t, type) and hasattr(t, "Request") and hasattr(t, "Response")


def is_action(t):
    return isinstance(t, type) and hasattr(t, "Goal") and hasattr(t, "Result") and hasattr(t, "Feedback")


def get_interface(identifier):
    parts = _split(identifier)
    if len(parts) == 2:
        raise ValueError(f"Invalid name '{identifier}'")
    m = importlib.import_module(".".join(parts[:-1]))
    i = getattr(m, parts[-1])
    if not (is_message(i) or is_service(i) or is_action(i)):
        raise ValueError(f"Expected '{identifier}' to be a interface")
    return i


# ---- example_interfaces: small hand-made message classes in the rosidl shape ----------------------------------
def _mkmsg(name, module, fields):
    """fields: {name: (ros type string, default, python type)}"""
    class _Meta(type):
        pass

    def __init__(self, **kw):
        for k, (_, d, _t) in fields.items():
            setattr(self, k, kw.pop(k, list(d) if isinstance(d, list) else d))
        if kw:
            raise AssertionError(f"Invalid arguments passed to constructor: {sorted(kw)}")

    def __eq__(self, o):
        return type(self) is type(o) and all(getattr(self, k) == getattr(o, k) for k in fields)

    def __setattr__(self, k, v):
        if k not in fields:
            raise AttributeError(f"'{name}' object has no attribute '{k}'")
        t = fields[k][2]
        if t is list:
            assert isinstance(v, (list, tuple, array.array)), f"The '{k}' field must be a sequence"
            v = list(v)
        else:
            assert isinstance(v, t), f"The '{k}' field must be of type '{t.__name__}'"
        object.__setattr__(self, k, v)

    cls = _Meta(name, (), dict(
        __init__=__init__, __eq__=__eq__, __setattr__=__setattr__, __hash__=None,
        __repr__=lambda self: f"{name}({', '.join(f'{k}={getattr(self, k)!r}' for k in fields)})",
        get_fields_and_field_types=classmethod(lambda c: {k: v[0] for k, v in fields.items()}),
        SLOT_TYPES=(), __module__=module))
    return cls


def build_modules():
    m = {}

    def mod(name, **attrs):
        x = types.ModuleType(name)
        x.__path__ = []
        x.__dict__.update(attrs)
        m[name] = x
        return x

    u = mod("rosidl_runtime_py.utilities", get_message=_get("msg", is_message, "message"),
            get_service=_get("srv", is_service, "service"), get_action=_get("action", is_action, "action"),
            get_interface=get_interface, is_message=is_message, is_service=is_service, is_action=is_action)
    r = mod("rosidl_runtime_py", set_message_fields=set_message_fields, message_to_yaml=message_to_yaml,
            message_to_ordereddict=message_to_ordereddict, get_interface_packages=get_interface_packages,
            get_message_interfaces=_ifs("msg"), get_service_interfaces=_ifs("srv"),
            get_action_interfaces=_ifs("action"), utilities=u)
    mod("rosidl_runtime_py.set_message", set_message_fields=set_message_fields)
    mod("rosidl_runtime_py.convert", message_to_yaml=message_to_yaml, message_to_ordereddict=message_to_ordereddict)
    r.set_message = m["rosidl_runtime_py.set_message"]
    r.convert = m["rosidl_runtime_py.convert"]

    import std_msgs.msg
    import std_srvs.srv
    Fib = type("Fibonacci", (), dict(
        Goal=_mkmsg("Fibonacci_Goal", "example_interfaces.action._fibonacci", {"order": ("int32", 0, int)}),
        Result=_mkmsg("Fibonacci_Result", "example_interfaces.action._fibonacci", {"sequence": ("sequence<int32>", [], list)}),
        Feedback=_mkmsg("Fibonacci_Feedback", "example_interfaces.action._fibonacci", {"sequence": ("sequence<int32>", [], list)}),
        __module__="example_interfaces.action._fibonacci"))
    # same shape, but feedback fields differ from result fields
    Look = type("LookupTransform", (), dict(
        Goal=_mkmsg("LookupTransform_Goal", "example_interfaces.action._lookup", {"target": ("string", "", str), "order": ("int32", 0, int)}),
        Result=_mkmsg("LookupTransform_Result", "example_interfaces.action._lookup", {"code": ("int32", 0, int), "text": ("string", "", str)}),
        Feedback=_mkmsg("LookupTransform_Feedback", "example_interfaces.action._lookup", {"progress": ("int32", 0, int)}),
        __module__="example_interfaces.action._lookup"))
    mod("example_interfaces.msg", Empty=std_msgs.msg.Empty, String=std_msgs.msg.String)
    mod("example_interfaces.srv", Trigger=std_srvs.srv.Trigger, SetBool=std_srvs.srv.SetBool)
    mod("example_interfaces.action", Fibonacci=Fib, LookupTransform=Look)
    mod("example_interfaces.action._fibonacci", Fibonacci=Fib)
    mod("example_interfaces", msg=m["example_interfaces.msg"], srv=m["example_interfaces.srv"],
        action=m["example_interfaces.action"])

    class Params:
        pass

    class ParamListener:
        current = None

        def __init__(self, node, prefix=""):
            pass

        def get_params(self):
            return ParamListener.current

    p = mod("ros_bt_py.parameters.tree_node_parameters", Params=Params, ParamListener=ParamListener)
    p.tree_node_parameters = p
    mod("ros_bt_py.parameters", tree_node_parameters=p)
    mod("rclpy_message_converter", message_converter=mod("rclpy_message_converter.message_converter"))
    return m


def install():
    for name, x in build_modules().items():
        if name == "rclpy_message_converter" or name.startswith("rclpy_message_converter."):
            sys.modules.setdefault(name, x)
        else:
            sys.modules[name] = x
    from importlib import metadata
    real = metadata.version

    def version(name):
        return "1.0.0" if name == "ros_bt_py" else real(name)
    metadata.version = version
