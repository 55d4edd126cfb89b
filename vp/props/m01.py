"""Only well-formed WAMP messages are accepted."""
from .common import Harness, KINDS, eq, iff, implies, is_valid_id, kind, land, lnot, lor, part, truth
from .wire import CODES, LAYOUT, PLAIN, ROLES, lengths, wellformed

NONLIST = [k for k in KINDS if k != "list"]


def judge(c, o, good, cls):
    if o.ok:
        c.check(good, f"only a well-formed value is accepted as {cls}")
        c.check(type(o.value).__name__ == cls, f"an accepted value with {cls}'s type code is a {cls}")
        c.reach("accepted")
    else:
        c.check(lnot(good), f"a well-formed {cls} is accepted")
        c.check(o.raised(ValueError, TypeError), "a malformed value is rejected with ValueError or TypeError")
        c.reach("rejected")


def not_a_list(c):
    v = c.any("value", NONLIST, depth=1)
    o = c.call(c.w.serializers_serializer.to_message, v)
    c.check(o.raised(ValueError, TypeError), "a value that is not a list is rejected with ValueError or TypeError")
    c.reach("rejected")


def type_code(c, maxlen):
    """The empty list, and lists whose first element is anything but a known type code."""
    n = c.choice("n", list(range(maxlen + 1)))
    L = []
    if n:
        t = c.any("type", [k for k in KINDS if k not in ("bool", "float")], depth=0)
        c.assume(lnot(land(kind(t, "int"), lor(*[eq(part(t, "int"), k) for k in CODES]))))
        L = [t] + [c.any("f", depth=0) for _ in range(n - 1)]
    o = c.call(c.w.serializers_serializer.to_message, L)
    c.check(o.raised(ValueError, TypeError), "a list without a known type code is rejected with ValueError or TypeError")
    c.reach("rejected")


def wire_list(c, cls, n, depth, kinds=KINDS):
    code, fields, args = LAYOUT[cls]
    L = [code] + [c.any("f", kinds, depth) for _ in range(n - 1)]
    for v, (_, k) in zip(L[1:], fields):
        if k in ("id", "int"):
            c.assume(lnot(kind(v, "bool")))  # unspecified
    return L


def plain(c, depth, extra):
    cls = c.choice("class", PLAIN)
    lo, hi = lengths(cls)
    n = c.choice("n", list(range(1, hi + 1 + extra)))
    L = wire_list(c, cls, n, depth)
    o = c.call(c.w.serializers_serializer.to_message, L)
    judge(c, o, wellformed(cls, L), cls)


def details(c, cls, nroles, intkeys):
    """Arbitrary details of HELLO or WELCOME: any value, or a dictionary with any of the known keys.
    Returns (value, formula: well-formed)."""
    if c.choice("details", ["dict", "other"]) == "other":
        return c.any("details", [k for k in KINDS if k != "dict"], depth=0), False
    pairs = []
    cs = []
    rk = c.choice("roles", ["dict", "other", "absent"])
    if rk == "absent":
        cs.append(False)
    elif rk == "other":
        pairs.append(("roles", c.any("roles", [k for k in KINDS if k != "dict"], depth=0)))
        cs.append(False)
    else:
        n = c.choice("nroles", list(range(nroles + 1)))
        keys = []
        for i in range(n):
            isint = intkeys and c.choice("intkey", [False, True])
            k = c.int("role") if isint else c.str("role")
            for k2 in keys:
                c.assume(lnot(eq(k, k2)))
            keys.append(k)
            cs.append(False if isint else lor(*[eq(k, r) for r in ROLES]))
        pairs.append(("roles", c.mkdict([(k, c.any("role value", depth=0)) for k in keys])))
        cs.append(n > 0)
    for name, k in (("authid", "str"), ("authrole", "str"),
                    ("authmethods", "list") if cls == "Hello" else ("authmethod", "str"), ("authextra", "dict")):
        p = c.bool(name + " present")
        v = c.any(name, depth=1)
        pairs.append((name, v, p))
        cs.append(implies(p, kind(v, k, "none")))
    return c.mkdict(pairs), land(*cs)


def session_message(c, cls, nroles, intkeys):
    n = c.choice("n", [3, 1, 2, 4])
    L = [LAYOUT[cls][0]]
    good = n == 3
    if n > 1:
        L.append(c.any("first", depth=0))
        if cls == "Hello":
            good = land(good, kind(L[1], "str"))
        else:
            c.assume(lnot(kind(L[1], "bool")))
            good = land(good, is_valid_id(L[1]))
    if n > 2:
        d, ok = details(c, cls, nroles if n == 3 else 0, intkeys)
        L.append(d)
        good = land(good, ok)
    if n > 3:
        L.append(c.any("extra", depth=0))
    o = c.call(c.w.serializers_serializer.to_message, L)
    judge(c, o, good, cls)


HARNESSES = [
    Harness("not-a-list", not_a_list, labels=["rejected"], bounds="any value that is not a list"),
    Harness("type-code", type_code, quick={"maxlen": 3}, thorough={"maxlen": 8}, labels=["rejected"],
            bounds="empty list and lists of up to 3 (thorough 8) elements with any unknown type code"),
    Harness("plain", plain, quick={"depth": 1, "extra": 1}, thorough={"depth": 2, "extra": 3},
            labels=["accepted", "rejected"],
            bounds="all 22 message types but HELLO and WELCOME, every list length up to one (thorough three) beyond the "
                   "longest allowed, every element any JSON-like value (containers symbolic to depth 1; thorough 2)"),
    Harness("hello", lambda c, **k: session_message(c, "Hello", **k), quick={"nroles": 2, "intkeys": True},
            thorough={"nroles": 4, "intkeys": True}, labels=["accepted", "rejected"],
            bounds="every length 1..4, any details; dictionaries with up to 2 (thorough 4) roles of any name"),
    Harness("welcome", lambda c, **k: session_message(c, "Welcome", **k), quick={"nroles": 2, "intkeys": True},
            thorough={"nroles": 4, "intkeys": True}, labels=["accepted", "rejected"],
            bounds="as hello"),
]
ASSUMPTIONS = ["booleans in ID and message-type positions, booleans and floats as type codes: unspecified, excluded"]
