"""Messages are independent values."""
from .common import Harness, eq, kind, land, lnot, lor, part, same, snap
from .m03 import make, wire_of, value, arguments
from .wire import LAYOUT, PLAIN, attrs, build, lengths

PAYLOAD = {"Call": "options", "Invocation": "details", "Result": "details", "Yield": "options"}
DEFAULTED = {k: a for k in PLAIN for a, t in LAYOUT[k][1] if t == "dict" and k not in ("Abort", "Goodbye")}


def read_all(c, m, cls):
    for a in attrs(cls):
        getattr(m, a)
    if hasattr(m, "payload"):
        m.payload, m.payload_serializer, m.payload_is_binary()
    m.TYPE, m.TEXT


def intact(c, f, before):
    return land(*[same(f[k], before[k]) if f[k] is not None else before[k] is None for k in f])


def stable(c, nargs, depth):
    """Reading and encoding leave the message, its inputs and other messages alone."""
    cls = c.choice("class", PLAIN)
    m, f = make(c, cls, nargs, depth)
    before = {k: snap(v) for k, v in f.items()}
    want = wire_of(cls, f)
    for how in c.choice("steps", [("encode", "read"), ("read", "read"), ("encode", "encode")]):
        if how == "read":
            read_all(c, m, cls)
        else:
            o = c.call(m.marshal)
            c.check(o.ok and same(o.value, want), f"encoding a {cls} gives its wire list")
    o = c.call(m.marshal)
    c.check(o.ok and same(o.value, want), f"encoding a {cls} again gives the same wire list")
    c.check(intact(c, f, before), f"the values a {cls} was made from are not modified")
    for a in f:
        if a != "args":
            c.check(same(getattr(m, a), before[a]) if before[a] is not None else getattr(m, a) is None,
                    f"{cls}.{a} stays the same")
    c.reach(cls)


def payload(c, n):
    """The payload serializer's id is announced without touching the caller's dictionary."""
    cls = c.choice("class", list(PAYLOAD))
    where = PAYLOAD[cls]
    pairs = []
    if c.choice("x", [False, True]):
        pairs.append(("x_payload_serializer", c.any("stale", depth=0)))
    if c.choice("given", [True, False]):
        key = c.str("key")
        c.assume(lnot(eq(key, "x_payload_serializer")))
        pairs.append((key, c.any("option", depth=0)))
        opts = c.mkdict(pairs)
    else:
        c.assume(not pairs)
        opts = None
    ser = c.choice("serializer", [None, "id"])
    if ser == "id":
        ser = c.int("serializer id")
    body = c.bytes("payload", n)
    f = {"request_id": c.id("request"), "payload": body, "serializer": ser, "binary": True, where: opts}
    if cls == "Call":
        f["procedure"] = c.str("procedure")
    if cls == "Invocation":
        f["registration_id"] = c.id("registration")
    before = snap(opts) if opts is not None else None
    m = build(c, cls, f)
    first = getattr(m, where)
    c.f(first.get, "x_payload_serializer")
    for how in c.choice("steps", [(), ("read",), ("marshal",), ("read", "marshal")]):
        getattr(m, where) if how == "read" else m.marshal()
    d = m.marshal()[LAYOUT[cls][1].index((where, "dict")) + 1]
    d2 = getattr(m, where)
    for x in (d, d2):
        if ser is not None:
            c.check(same(c.f(x.get, "x_payload_serializer"), ser), f"{cls} announces exactly its payload serializer")
        elif not pairs or pairs[0][0] != "x_payload_serializer":
            c.check(lnot(c.f(x.__contains__, "x_payload_serializer")), f"{cls} without payload serializer announces none")
        for k, v in pairs[-1:]:
            if k != "x_payload_serializer":
                c.check(same(c.f(x.get, k), v), f"{cls}'s other {where} stay")
        c.check(c.f(len, x) == len({id(k) for k, _ in pairs if k != "x_payload_serializer"})
                + (1 if ser is not None or (pairs and pairs[0][0] == "x_payload_serializer") else 0), f"{cls} has no further {where}")
    if opts is not None:
        c.check(same(opts, before), "the dictionary the caller passed in is not modified")
    c.check(m.payload is body or same(m.payload, body), "the payload is carried unchanged")
    c.check(same(m.payload_serializer, ser) if ser is not None else m.payload_serializer is None, "so is its serializer id")
    # another message without options is not affected
    g = dict(f)
    g[where] = None
    g["serializer"] = None
    other = build(c, cls, g)
    c.check(c.f(len, getattr(other, where)) == 0, f"a later {cls} with defaulted {where} has none")
    c.reach(cls)


def defaults(c):
    """Messages built with defaulted options, details or extra share nothing."""
    cls = c.choice("class", sorted(DEFAULTED))
    cls2 = c.choice("other class", sorted(DEFAULTED))
    a, b = DEFAULTED[cls], DEFAULTED[cls2]

    def mk(cl):
        f = {x: value(c, x, k, 0) for x, k in LAYOUT[cl][1] if k != "dict"}
        return build(c, cl, f)

    early = mk(cls2)
    m = mk(cls)
    c.check(c.f(len, getattr(m, a)) == 0, f"{cls}.{a} defaults to empty")
    key = c.str("key")
    # the user writes into one message's dictionary
    c.f(lambda d: d.__setitem__(key, 1), getattr(m, a))
    late = mk(cls2)
    for x in (early, late):
        c.check(c.f(len, getattr(x, b)) == 0, f"writing to a {cls}'s defaulted {a} does not show in another {cls2}")
    c.reach("independent")


def hello_welcome(c):
    cls = c.choice("class", ["Hello", "Welcome"])
    roles = c.mkdict([("caller", c.mkdict([]))])
    f = {"roles": roles}
    f["realm" if cls == "Hello" else "session_id"] = c.str("realm") if cls == "Hello" else c.id("session")
    extra = None
    if c.choice("authextra", [False, True]):
        extra = c.mkdict([(c.str("key"), c.any("extra", depth=0))])
        f["authextra"] = extra
    if c.choice("authid", [False, True]):
        f["authid"] = c.str("authid")
    before = {k: snap(v) for k, v in f.items()}
    m = build(c, cls, f)
    read_all(c, m, cls)
    first = snap(m.marshal())
    read_all(c, m, cls)
    c.check(same(m.marshal(), first), f"encoding a {cls} again gives the same wire list")
    c.check(intact(c, f, before), f"the values a {cls} was made from are not modified")
    g = dict(f)
    g.pop("authextra", None)
    other = build(c, cls, g)
    if other.authextra is not None:
        c.f(lambda d: d.__setitem__("x", 1), other.authextra)
    late = build(c, cls, g)
    c.check(late.authextra is None or c.f(len, late.authextra) == 0, "defaulted authextra is not shared")
    c.reach(cls)


def parsed(c, depth):
    """Two decoded messages do not influence each other."""
    cls = c.choice("class", PLAIN)
    code, fields, args = LAYOUT[cls]
    lo, hi = lengths(cls)
    n = c.choice("n", [lo, hi] if hi > lo else [lo])

    def wire():
        L = [code] + [value(c, a, k, depth) for a, k in fields]
        if n > lo:
            L += [[c.any("arg", depth=depth)], c.mkdict([(c.str("key"), c.any("kwarg", depth=depth))])]
        return L

    P = c.w.serializers_serializer.to_message
    L1, L2 = wire(), wire()
    b1, b2 = snap(L1), snap(L2)
    m1 = P(L1)
    m2 = P(L2)
    read_all(c, m1, cls)
    c.check(same(m1.marshal(), b1), f"a {cls} decoded first encodes to its own wire list")
    c.check(same(m2.marshal(), b2), f"a {cls} decoded second encodes to its own wire list")
    for a, k in fields:
        if k == "dict":
            c.f(lambda d: d.__setitem__("x", 1), getattr(m1, a))
    c.check(same(m2.marshal(), b2), f"changing one decoded {cls} does not change another")
    m3 = P(snap(b2))
    c.check(same(m3.marshal(), b2), f"changing one decoded {cls} does not change a later one")
    c.reach(cls)


HARNESSES = [
    Harness("stable", stable, quick={"nargs": 1, "depth": 0}, thorough={"nargs": 3, "depth": 1}, labels=PLAIN,
            bounds="all 22 message types but HELLO and WELCOME, all fields, three sequences of reads and encodings"),
    Harness("payload", payload, quick={"n": 2}, thorough={"n": 16}, labels=sorted(PAYLOAD),
            bounds="CALL, INVOCATION, RESULT, YIELD; any serializer id (or none), any option besides, a stale announcement"),
    Harness("defaults", defaults, labels=["independent"], bounds="every ordered pair of message types with defaulted "
            "options, details or extra"),
    Harness("hello-welcome", hello_welcome, labels=["Hello", "Welcome"], bounds="all realms, session IDs and authids"),
    Harness("parsed", parsed, quick={"depth": 0}, thorough={"depth": 1}, labels=PLAIN,
            bounds="two decoded messages of each type, all fields"),
]
