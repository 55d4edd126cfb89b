"""A decoded message carries exactly the wire fields."""
from .common import Harness, KINDS, eq, implies, kind, land, lnot, lor, part, same, snap
from .wire import LAYOUT, PLAIN, ROLES, lengths, wellformed


def plain(c, depth):
    cls = c.choice("class", PLAIN)
    code, fields, args = LAYOUT[cls]
    lo, hi = lengths(cls)
    n = c.choice("n", list(range(lo, hi + 1)))
    L = [code] + [c.any("f", {"id": ["int"], "int": ["int"], "str": ["str"], "dict": ["dict"]}[k], depth)
                  for _, k in fields]
    if n > lo:
        L.append(c.any("args", ["list"], depth + 1))
    if n > lo + 1:
        L.append(c.any("kwargs", ["dict"], depth))
    # look at some keys so that the dictionaries have content
    for v in L[1:]:
        if kind(v, "dict") is True:
            for key in ("progress", "x_payload_serializer", "k"):
                c.f(part(v, "dict").get, key)
    c.assume(wellformed(cls, L))
    before = [snap(part(v, k)) for v, (_, k) in zip(L[1:], [(a, "int" if k == "id" else k) for a, k in fields])]
    extra = [snap(part(v, k)) for v, k in zip(L[lo:], ("list", "dict"))]
    o = c.call(c.w.serializers_serializer.to_message, L)
    c.check(o.ok, "a well-formed value is decoded")
    m = o.value
    c.check(type(m).__name__ == cls, "the message is of the class its type code denotes")
    c.check(m.TYPE == code, "TYPE is the type code")
    for (a, k), v in zip(fields, before):
        c.check(same(getattr(m, a), v), f"{cls}.{a} is the wire element")
    if args:
        if n > lo:
            c.check(same(m.args, extra[0]), f"{cls}.args is the wire element")
        else:
            c.check(m.args is None, "absent positional arguments are reported as absent")
        if n > lo + 1:
            c.check(same(m.kwargs, extra[1]), f"{cls}.kwargs is the wire element")
        else:
            c.check(m.kwargs is None, "absent keyword arguments are reported as absent")
    c.reach(cls)


def session_message(c, cls, nroles):
    first = c.str("realm") if cls == "Hello" else c.id("session")
    keys = []
    n = c.choice("nroles", list(range(1, nroles + 1)))
    for i in range(n):
        k = c.str("role")
        c.assume(lor(*[eq(k, r) for r in ROLES]))
        for k2 in keys:
            c.assume(lnot(eq(k, k2)))
        keys.append(k)
    roles = c.mkdict([(k, c.any("role value", depth=1)) for k in keys])
    before = snap(roles)
    pairs = [("roles", roles)]
    vals = []
    for name, k in (("authid", "str"), ("authrole", "str"),
                    ("authmethods", "list") if cls == "Hello" else ("authmethod", "str"), ("authextra", "dict")):
        how = c.choice(name, ["value", "null", "absent"])
        v = None
        if how == "value":
            v = c.any(name, [k], depth=1)
            if k == "dict":
                for key in ("pubkey", "k"):
                    c.f(part(v, "dict").get, key)
            vals.append((name, snap(part(v, k))))
        else:
            vals.append((name, None))
        if how != "absent":
            pairs.append((name, v))
    order = c.choice("order", [1, -1])
    o = c.call(c.w.serializers_serializer.to_message, [LAYOUT[cls][0], first, c.mkdict(pairs[::order])])
    c.check(o.ok, "a well-formed value is decoded")
    m = o.value
    c.check(type(m).__name__ == cls, "the message is of the class its type code denotes")
    c.check(same(m.realm if cls == "Hello" else m.session_id, first), f"{cls}'s first field is the wire element")
    c.check(same(m.roles, before), f"{cls}.roles is the wire element")
    for name, v in vals:
        if cls == "Hello" and name == "authrole":
            continue  # HELLO has no authrole attribute
        x = getattr(m, name)
        if v is None:
            if name == "authextra" and cls == "Welcome":
                c.check(x is None or c.f(len, x) == 0, "an absent authextra is reported as absent")
            else:
                c.check(x is None, f"an absent {name} is reported as absent")
        else:
            c.check(same(x, v), f"{cls}.{name} is the wire element")
    c.reach("decoded")


HARNESSES = [
    Harness("plain", plain, quick={"depth": 1}, thorough={"depth": 2}, labels=PLAIN,
            bounds="all 22 message types but HELLO and WELCOME, every allowed length, all IDs and texts, dictionaries "
                   "with any of three keys, lists of up to one element"),
    Harness("hello", lambda c, **k: session_message(c, "Hello", **k), quick={"nroles": 2}, thorough={"nroles": 3},
            labels=["decoded"],
            bounds="all realms, up to 2 (thorough 3) roles, every combination of present, null and absent auth fields"),
    Harness("welcome", lambda c, **k: session_message(c, "Welcome", **k), quick={"nroles": 2}, thorough={"nroles": 3},
            labels=["decoded"], bounds="as hello, all session IDs"),
]
