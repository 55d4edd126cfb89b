"""Encoding follows the WAMP layout and round-trips every field."""
from .common import Harness, KINDS, eq, kind, land, lnot, lor, part, same, snap
from .wire import LAYOUT, PLAIN, ROLES, attrs, build, lengths, same_messages


def value(c, name, k, depth, kinds=KINDS, ints=None):
    if k == "id":
        return c.id(name)
    if k == "int":
        return c.int(name, *(ints or ()))
    if k == "str":
        return c.str(name)
    if k == "dict":
        n = c.choice(name + " entries", [0, 1])
        return c.mkdict([(c.str(name + " key"), c.any(name + " value", kinds, depth, ints)) for _ in range(n)])
    raise AssertionError(k)


def arguments(c, nargs, depth, kinds=KINDS, ints=None):
    """Positional and keyword arguments: absent, empty or some."""
    a = c.choice("args", [None] + list(range(nargs + 1)))
    k = c.choice("kwargs", [None, 0, 1])
    args = None if a is None else [c.any("arg", kinds, depth, ints) for _ in range(a)]
    kwargs = None if k is None else c.mkdict([(c.str("key"), c.any("kwarg", kinds, depth, ints)) for _ in range(k)])
    return args, kwargs


def make(c, cls, nargs, depth, kinds=KINDS, ints=None):
    """A message of class cls with arbitrary fields, and the fields."""
    f = {}
    for a, k in LAYOUT[cls][1]:
        f[a] = value(c, a, k, depth, kinds, ints)
    if LAYOUT[cls][2]:
        f["args"], f["kwargs"] = arguments(c, nargs, depth, kinds, ints)
    return build(c, cls, dict(f)), f


def wire_of(cls, f):
    L = [LAYOUT[cls][0]] + [snap(f[a]) for a, _ in LAYOUT[cls][1]]
    if LAYOUT[cls][2]:
        if f["args"] is not None:
            L.append(snap(f["args"]))
        elif f["kwargs"] is not None:
            L.append([])
        if f["kwargs"] is not None:
            L.append(snap(f["kwargs"]))
    return L


def plain(c, nargs, depth):
    cls = c.choice("class", PLAIN)
    m, f = make(c, cls, nargs, depth)
    want = wire_of(cls, f)
    o = c.call(m.marshal)
    c.check(o.ok, f"{cls} can be encoded")
    got = o.value
    c.check(c.f(isinstance, got, list) and c.f(len, got) == len(want), f"{cls} encodes to a list of the right length")
    for i, (x, y) in enumerate(zip(got, want)):
        c.check(same(x, y), f"element {i} of an encoded {cls} is the field at that position")
    d = c.call(c.w.serializers_serializer.to_message, got)
    c.check(d.ok, f"an encoded {cls} is decoded")
    c.check(type(d.value).__name__ == cls, f"an encoded {cls} decodes as {cls}")
    for a, _ in LAYOUT[cls][1]:
        c.check(same(getattr(d.value, a), f[a]), f"{cls}.{a} survives encoding and decoding")
    if LAYOUT[cls][2]:
        c.check(same_messages(d.value, m), f"{cls}'s arguments survive encoding and decoding")
    c.reach(cls)


def session_fields(c, cls, nroles, kinds=KINDS):
    n = c.choice("nroles", list(range(1, nroles + 1)))
    roles = c.mkdict([(r, c.mkdict([("features", c.mkdict([]))])) for r in ROLES[:n]])
    f = {"roles": roles}
    if cls == "Hello":
        f["realm"] = c.str("realm")
    else:
        f["session_id"] = c.id("session")
    for n in attrs(cls)[2:]:
        if c.choice(n, [True, False]):
            if n == "authmethods":
                f[n] = [c.str("method") for _ in range(c.choice("methods", [0, 1, 2]))]
            elif n == "authextra":
                f[n] = c.mkdict([("x", c.any("extra", kinds, depth=1)) for _ in range(c.choice("extras", [0, 1]))])
            else:
                f[n] = c.str(n)
    return f


def session_message(c, cls, nroles):
    f = session_fields(c, cls, nroles)
    names = attrs(cls)[2:]
    m = build(c, cls, dict(f))
    before = {k: snap(v) for k, v in f.items()}
    o = c.call(m.marshal)
    c.check(o.ok, f"{cls} can be encoded")
    got = o.value
    c.check(c.f(isinstance, got, list) and c.f(len, got) == 3, f"{cls} encodes to a list of three elements")
    c.check(got[0] == LAYOUT[cls][0], "the first element is the type code")
    c.check(same(got[1], before["realm" if cls == "Hello" else "session_id"]), f"{cls}'s first field follows")
    det = got[2]
    c.check(c.f(isinstance, det, dict), f"{cls}'s details are a dictionary")
    c.check(same(c.f(det.get, "roles"), before["roles"]), f"{cls}'s details hold the roles")
    for n in names:
        present = c.f(det.__contains__, n)
        if n in f:
            c.check(present, f"{cls}'s details hold {n} when set")
            c.check(same(c.f(det.get, n), before[n]), f"{cls}'s details hold the given {n}")
        elif n == "authextra" and cls == "Welcome":
            c.check(lnot(present) if not present else c.f(len, c.f(det.get, n)) == 0, "an unset authextra is absent or empty")
        else:
            c.check(lnot(present), f"{cls}'s details do not hold {n} when unset")
    d = c.call(c.w.serializers_serializer.to_message, got)
    c.check(d.ok, f"an encoded {cls} is decoded")
    c.check(same_messages(d.value, m), f"{cls}'s fields survive encoding and decoding")
    c.reach("round trip")


HARNESSES = [
    Harness("plain", plain, quick={"nargs": 2, "depth": 0}, thorough={"nargs": 3, "depth": 1}, labels=PLAIN,
            bounds="all 22 message types but HELLO and WELCOME, all IDs and texts, dictionaries of up to one entry of "
                   "any value, up to 2 (thorough 3) positional arguments and one keyword argument of any name"),
    Harness("hello", lambda c, **k: session_message(c, "Hello", **k), quick={"nroles": 2}, thorough={"nroles": 6},
            labels=["round trip"], bounds="all realms, every combination of set and unset auth fields"),
    Harness("welcome", lambda c, **k: session_message(c, "Welcome", **k), quick={"nroles": 2}, thorough={"nroles": 6},
            labels=["round trip"], bounds="all session IDs, every combination of set and unset auth fields"),
]
