"""Calls are routed to the procedure's current callee."""
from . import many as population
from .common import Harness
from .dealer import Dealer, apart, busy

OPS = ["register", "unregister", "leave", "call", "answer"]


def content(c):
    d = Dealer(c, "D02", full=True)
    s = d.join()
    d.register(s.sid)
    d.call(s.sid if c.choice("self", [True, False]) else d.join().sid)


def final(c, d):
    here = d.present()
    d.call((c.choice("caller", here + [None]) or d.join()).sid if here else d.join().sid)


def histories(c, n, most, ops=OPS):
    d = Dealer(c, "D02")
    d.join()
    for _ in range(c.choice("length", list(range(1, n + 1)))):
        c.reach(d.step(ops, most))
    final(c, d)


def pending(c, callees, callers, calls, n):
    """Calls to a busy dealer."""
    d = Dealer(c, "D02")
    busy(c, d, callees, callers, calls)
    for _ in range(n):
        c.reach(d.step(["unregister", "leave", "answer"], 0))
    final(c, d)


def two(c, n):
    final(c, apart(c, "D02", n, ["register", "unregister", "leave", "call"]))


def many(c, n, few=False):
    population.callees(c, "D02", n, few)


def again(c, n):
    population.calls_again(c, "D02", n)


def holder(c, n):
    population.owner(c, "D02", n)


HARNESSES = [
    Harness("content", content, labels=["invocation", "no such procedure"],
            bounds="any CALL: up to 2 positional and 1 keyword argument of any value, or a payload of up to 3 bytes"),
    Harness("histories", histories, quick={"n": 3, "most": 2}, thorough={"n": 4, "most": 3},
            labels=OPS + ["invocation", "no such procedure"],
            bounds="every history of up to 3 (thorough 4) operations of up to 2 (thorough 3) sessions, which may leave and join "
                   "again, then any call; any session ids, procedures and request ids"),
    Harness("registrations", histories, quick={"n": 4, "most": 2, "ops": ["register", "unregister", "leave"]},
            thorough={"n": 5, "most": 3, "ops": ["register", "unregister", "leave"]}, labels=["invocation", "no such procedure"],
            bounds="every history of up to 4 (thorough 5) joins, leaves, registers and unregisters, then any call"),
    Harness("pending", pending, quick={"callees": 2, "callers": 1, "calls": 2, "n": 1},
            thorough={"callees": 2, "callers": 2, "calls": 3, "n": 2}, labels=["leave", "answer", "unregister", "invocation"],
            bounds="2 callees, 1 (thorough 2) callers, 2 (thorough 3) pending calls, 1 (thorough 2) operations, then any call"),
    Harness("apart", two, quick={"n": 2}, thorough={"n": 3}, labels=["apart"],
            bounds="two dealers in one process, one session each, 2 (thorough 3) operations on either"),
    Harness("many", many, quick={"n": 300}, thorough={"n": 1100}, labels=["many"], extra=True,
            bounds="300 (thorough 1100) registrations and pending calls at once"),
    Harness("crowded", many, quick={"n": 1100, "few": True}, thorough={"n": 4200, "few": True}, labels=["many"], extra=True,
            bounds="1100 (thorough 4200) registrations and pending calls at once; first and last acting only in part"),
    Harness("again", again, quick={"n": 1100}, thorough={"n": 4200}, labels=["again"], extra=True,
            bounds="1100 (thorough 4200) calls one after the other, while another call waits"),
    Harness("holder", holder, quick={"n": 300}, thorough={"n": 1100}, labels=["holder"], extra=True,
            bounds="one session with 300 (thorough 1100) registrations; up to two are given up, then all"),
]
ASSUMPTIONS = [
    "callers are attached",
    "a CALL with the request ID of a pending call of the same caller that is no further part of a progressive call is "
    "unspecified and left out",
]
