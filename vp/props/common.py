"""Helpers shared by the property harnesses."""
from vp.sym import KINDS, SymAny, SymDict, SymSet, eq, iff, implies, land, lnot, lor, pytype, truth  # noqa: F401
from vp.run import Harness  # noqa: F401

ID_MAX = 1 << 53
_KIND = {type(None): "none", bool: "bool", int: "int", float: "float", str: "str", bytes: "bytes", list: "list",
         dict: "dict"}


def kind(v, *kinds):
    """Is v of one of these kinds (exactly)?  A formula."""
    if type(v) is SymAny:
        return v.kind_in(kinds)
    return _KIND.get(pytype(v)) in kinds


def part(v, k):
    return v.part(k) if type(v) is SymAny else v


def same(a, b):
    """Equal and of the same type."""
    if a is b:
        return True
    if type(a) is list and type(b) is list:
        if len(a) != len(b):
            return False
        return land(*[same(x, y) for x, y in zip(a, b)])
    cs = []
    if type(a) is SymAny or type(b) is SymAny:
        cs = [iff(kind(a, k), kind(b, k)) for k in KINDS]
    elif pytype(a) is not pytype(b):
        return False
    if type(a) is dict and type(b) is dict:
        if len(a) != len(b) or any(k not in b for k in a):
            return False
        return land(*[same(v, b[k]) for k, v in a.items()])
    return land(*cs, eq(a, b))


def snap(v):
    """A copy to compare with later (one level of containers, and containers in them)."""
    if type(v) is list:
        return [snap(x) for x in v]
    if type(v) is dict:
        return {k: snap(x) for k, x in v.items()}
    if type(v) is SymDict:
        d = v.copy()
        d.items_ = [[k, snap(x), p] for k, x, p in d.items_]
        return d
    return v


def isa(v, t):
    """Exact type test for values of known type."""
    return pytype(v) is t


def is_valid_id(v):
    """v is an integer in 1..2^53 (a formula)."""
    k = kind(v, "int")
    if k is False:
        return False
    x = part(v, "int")
    return land(k, x >= 1, x <= ID_MAX)
