"""Progressive calls and results stay on one invocation."""
from . import many as population
from .common import Harness, lnot
from .dealer import Dealer, busy

OPS = ["call", "more", "answer"]


def step(c, d, callee, caller):
    op = c.choice("op", OPS)
    if op == "answer":
        d.answer(callee.sid)
    else:
        d.call(caller.sid, None if op == "more" else d.registrations[0].procedure, only="more" if op == "more" else "new")
    c.reach(op)


def single(c, n, how):
    """One caller, one callee: any sequence of call parts and answers."""
    d = Dealer(c, "D04", progress=how)
    s = d.join()
    c.assume(d.register(s.sid) is not None)
    t = d.join()
    d.call(t.sid, d.registrations[0].procedure)
    for _ in range(c.choice("length", list(range(1, n + 1)))):
        step(c, d, s, t)


def moved(c, n, how):
    """The procedure changes hands while a progressive call is pending."""
    d = Dealer(c, "D04", progress=how)
    a, b, t = d.join(), d.join(), d.join()
    c.assume(d.register(a.sid) is not None)
    d.call(t.sid, d.registrations[0].procedure, only="new")
    d.unregister(a.sid)
    if c.choice("registered again", [True, False]):
        d.register(c.choice("by", [a, b]).sid)
    for _ in range(n):
        op = c.choice("op", ["more", "answer", "new"])
        if op == "answer":
            d.answer(c.choice("who", [a, b]).sid)
        else:
            d.call(t.sid, only=op)
        c.reach(op)


def several(c, callers, n, how):
    """Several callers with progressive calls, using any request ids."""
    d = Dealer(c, "D04", progress=how)
    s = d.join()
    c.assume(d.register(s.sid) is not None)
    ts = [d.join() for _ in range(callers)]
    for t in ts:
        d.call(t.sid, d.registrations[0].procedure)
    for _ in range(n):
        op = c.choice("op", ["more", "answer"])
        if op == "answer":
            d.answer(s.sid, only="right")
        else:
            d.call(c.choice("who", ts).sid, only="more")
        c.reach(op)
    d.call(c.choice("who", ts).sid, d.registrations[0].procedure)


def left(c, how):
    """Parts of a call whose callee left, or after the caller left and somebody joined with its id, are a new call."""
    d = Dealer(c, "D04", progress=how)
    s, t, u = d.join(), d.join(), d.join()
    c.assume(d.register(s.sid) is not None)
    p = d.registrations[0].procedure
    d.call(t.sid, p)
    d.leave(c.choice("who", [s, t]))
    if c.choice("registered again", [True, False]):
        d.register(u.sid, p)
    d.call(c.choice("caller", d.present()).sid, p)
    w = d.join()
    d.call(w.sid, p)
    d.answer(u.sid)
    c.reach("left")


def many(c, n, few=False):
    population.callees(c, "D04", n, few)


def stream(c, n):
    population.stream(c, "D04", n)


def again(c, n):
    population.calls_again(c, "D04", n)


HARNESSES = [
    Harness("single", single, quick={"n": 3, "how": "true"}, thorough={"n": 5, "how": "true"}, labels=OPS + ["answered"],
            bounds="one caller and callee, a call and up to 3 (thorough 5) further parts, new calls and answers of any ids, each "
                   "progressive or not, asking for progressive results or not"),
    Harness("false", single, quick={"n": 1, "how": "full"}, thorough={"n": 3, "how": "full"}, labels=OPS,
            bounds="the same with options also given as false"),
    Harness("moved", moved, quick={"n": 2, "how": "true"}, thorough={"n": 3, "how": "true"}, labels=["more", "answer", "new"],
            bounds="a procedure unregistered and possibly registered again during a progressive call"),
    Harness("several", several, quick={"callers": 2, "n": 2, "how": "true"}, thorough={"callers": 3, "n": 3, "how": "true"},
            labels=["more", "answer"], bounds="2 (thorough 3) callers with any request ids, 2 (thorough 3) parts or answers"),
    Harness("left", left, quick={"how": "true"}, labels=["left"], bounds="callee or caller leaves during a progressive call"),
    Harness("many", many, quick={"n": 300}, thorough={"n": 1100}, labels=["many"], extra=True,
            bounds="300 (thorough 1100) registrations and pending calls at once"),
    Harness("crowded", many, quick={"n": 1100, "few": True}, thorough={"n": 4200, "few": True}, labels=["many"], extra=True,
            bounds="1100 (thorough 4200) registrations and pending calls at once; first and last acting only in part"),
    Harness("stream", stream, quick={"n": 1100}, thorough={"n": 4200}, labels=["stream"], extra=True,
            bounds="one call with 1100 (thorough 4200) progressive parts or results or both, while another call waits"),
    Harness("again", again, quick={"n": 1100}, thorough={"n": 4200}, labels=["again"], extra=True,
            bounds="1100 (thorough 4200) calls one after the other, while another call waits"),
]
ASSUMPTIONS = [
    "progress and receive_progress are booleans or absent, and receive_progress is the same in all parts of a call",
    "callers are attached",
    "a CALL with the request ID of a pending call that is no further part of a progressive call is unspecified and left out",
]
