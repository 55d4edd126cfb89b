"""ID generators."""
from .common import Harness, eq, iff, implies, land, lor, lnot

MAX = 1 << 53


def state_attr(g):
    """The attribute holding the generator's position, if it has a plain integer one."""
    d = getattr(g, "__dict__", {})
    ks = [k for k, v in d.items() if type(v) is int]
    return ks[0] if len(ks) == 1 else None


def fresh(c, n):
    G = c.w.idgen.SessionScopeIDGenerator
    g, h = G(), G()
    for i in range(1, n + 1):
        x = c.call(g.next)
        c.check(x.ok and eq(x.value, i), "a fresh generator counts 1, 2, 3, ...")
    x = c.call(h.next)
    c.check(x.ok and eq(x.value, 1), "separate generators are independent")
    c.reach("counted")


def anywhere(c, n):
    """From any position p (1..2^53-1): the next IDs follow and wrap to 1 after 2^53.  By induction over the position,
    with `fresh` as the base case, this covers sequences of any length."""
    G = c.w.idgen.SessionScopeIDGenerator
    g = G()
    a = state_attr(g)
    if a is None:
        c.reach("no integer position")
        for i in range(1, 50):
            x = c.call(g.next)
            c.check(x.ok and eq(x.value, i), "a fresh generator counts 1, 2, 3, ...")
        return
    # what the generator holds after handing out p is p + off (2^53 itself is reached by calling it)
    c.f(g.next)
    off = getattr(g, a) - 1
    p = c.int("position", 1, MAX - 1)
    setattr(g, a, p + off)
    last = p
    seen = []
    for i in range(n):
        x = c.call(g.next)
        c.check(x.ok, "an ID is generated")
        c.check(land(x.value >= 1, x.value <= MAX), "every ID lies in 1..2^53")
        c.check(lor(land(last < MAX, eq(x.value, last + 1)), land(eq(last, MAX), eq(x.value, 1))),
                "the next ID follows the previous one, and 1 follows 2^53")
        for s in seen:
            c.check(lnot(eq(x.value, s)), "no repeats")
        seen.append(x.value)
        last = x.value
    h = G()
    x = c.call(h.next)
    c.check(x.ok and eq(x.value, 1), "separate generators are independent")
    c.reach("followed")


def session_ids(c, n):
    for _ in range(n):
        x = c.call(c.w.idgen.generate_session_id)
        c.check(x.ok, "a session ID is generated")
        c.check(land(x.value >= 1, x.value <= MAX), "session IDs lie in 1..2^53")
    c.reach("session id")


HARNESSES = [
    Harness("fresh", fresh, quick={"n": 300}, thorough={"n": 5000}, labels=["counted"],
            bounds="first 300 (thorough 5000) IDs of a fresh generator"),
    Harness("anywhere", anywhere, quick={"n": 3}, thorough={"n": 12}, labels=[],
            bounds="all positions 1..2^53-1, next 3 (thorough 12) IDs"),
    Harness("session-ids", session_ids, quick={"n": 2}, thorough={"n": 8}, labels=["session id"],
            bounds="all outcomes of the random source"),
]
ASSUMPTIONS = ["the generator keeps its position in its single integer attribute (otherwise only the first IDs are checked)"]
