"""The dealer never addresses a session that has left."""
from . import many as population
from .common import Harness, eq
from .dealer import Dealer, busy

OPS = ["register", "unregister", "leave", "call", "answer"]
AFTER = ["call", "answer", "register", "unregister"]


def follow(c, d, n, ops):
    for _ in range(n):
        here = d.present()
        op = c.choice("then", ops if here else ["join"])
        s = c.choice("by", here + [None]) if here else None
        if s is None:
            s = d.join()
        if op == "call":
            d.call(s.sid)
        elif op == "answer":
            d.answer(s.sid)
        elif op == "register":
            d.register(s.sid)
        elif op == "unregister":
            d.unregister(s.sid)
        c.reach("then " + op)


def histories(c, n, most, after):
    d = Dealer(c, "D05")
    d.join()
    for _ in range(c.choice("length", list(range(1, n + 1)))):
        d.step(OPS, most)
    if d.present():
        d.leave(c.choice("leaver", d.present()))
    follow(c, d, after, AFTER)


def pending(c, callees, callers, calls, leaves, n, reuse):
    """Sessions of a busy dealer leave, and others (or one with the same ID) join."""
    d = Dealer(c, "D05")
    busy(c, d, callees, callers, calls)
    for _ in range(leaves):
        s = c.choice("leaver", d.present())
        d.leave(s)
        if reuse:
            t = d.join()
            c.assume(eq(t.sid, s.sid))
            c.reach("same id")
    follow(c, d, n, ["call", "answer"])


def reused(c, n):
    """The callee or the caller of a progressive call leaves and another session gets its ID."""
    d = Dealer(c, "D05", progress="true")
    s, t = d.join(), d.join()
    c.assume(d.register(s.sid) is not None)
    p = d.registrations[0].procedure
    d.call(t.sid, p)
    who = c.choice("leaver", [s, t])
    d.leave(who)
    u = d.join()
    if c.choice("same id", [True, False]):
        c.assume(eq(u.sid, who.sid))
    if c.choice("registered again", [True, False]):
        d.register(u.sid, p)
    for _ in range(n):
        w = c.choice("by", d.present())
        if c.choice("op", ["call", "answer"]) == "call":
            d.call(w.sid, p, req=d.calls[0].request if c.choice("same request", [True, False]) else None)
        else:
            d.answer(w.sid)
    c.reach("reused")


def many(c, n, few=False):
    population.callees(c, "D05", n, few)


def again(c, n):
    population.calls_again(c, "D05", n)


def holder(c, n):
    population.owner(c, "D05", n)


HARNESSES = [
    Harness("histories", histories, quick={"n": 3, "most": 2, "after": 1}, thorough={"n": 4, "most": 3, "after": 1},
            labels=["then " + o for o in AFTER],
            bounds="every history of up to 3 (thorough 4) operations of up to 2 (thorough 3) sessions, one more of them leaves, then "
                   "any operation of an old or new session"),
    Harness("pending", pending, quick={"callees": 2, "callers": 1, "calls": 2, "leaves": 1, "n": 2, "reuse": False},
            thorough={"callees": 2, "callers": 2, "calls": 3, "leaves": 2, "n": 2, "reuse": False},
            labels=["then call", "then answer"],
            bounds="2 callees, 1 (thorough 2) callers, 2 (thorough 3) pending calls, 1 (thorough 2) sessions leave, then 2 calls "
                   "or answers of anybody, sessions that join later included"),
    Harness("same-id", pending, quick={"callees": 1, "callers": 1, "calls": 2, "leaves": 1, "n": 2, "reuse": True},
            thorough={"callees": 2, "callers": 1, "calls": 2, "leaves": 2, "n": 2, "reuse": True},
            labels=["same id", "then call", "then answer"],
            bounds="the same with sessions that join with the ID of one that left"),
    Harness("reused", reused, quick={"n": 2}, thorough={"n": 3}, labels=["reused"],
            bounds="a progressive call whose callee or caller left and whose ID is reused, then 2 (thorough 3) calls or answers"),
    Harness("many", many, quick={"n": 300}, thorough={"n": 1100}, labels=["many"], extra=True,
            bounds="300 (thorough 1100) registrations and pending calls at once"),
    Harness("crowded", many, quick={"n": 1100, "few": True}, thorough={"n": 4200, "few": True}, labels=["many"], extra=True,
            bounds="1100 (thorough 4200) registrations and pending calls at once; first and last acting only in part"),
    Harness("again", again, quick={"n": 1100}, thorough={"n": 4200}, labels=["again"], extra=True,
            bounds="1100 (thorough 4200) calls one after the other, while another call waits"),
    Harness("holder", holder, quick={"n": 300}, thorough={"n": 1100}, labels=["holder"], extra=True,
            bounds="one session with 300 (thorough 1100) registrations; up to two are given up, then all"),
]
ASSUMPTIONS = ["callers are attached"]
