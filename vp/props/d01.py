"""A procedure has at most one live registration."""
from . import many as population
from .common import Harness
from .dealer import Dealer, apart

OPS = ["register", "unregister", "leave"]


def histories(c, n, most, ops=OPS):
    d = Dealer(c, "D01")
    d.join()
    for _ in range(c.choice("length", list(range(1, n + 1)))):
        c.reach(d.step(ops, most))
    p = c.str("observed procedure")
    d.check_registered(p)
    s = c.choice("observer", d.present()) if d.present() else d.join()
    d.register(s.sid, p)
    d.check_registered(p)


def with_calls(c, n, calls):
    """Pending calls do not change who may register what."""
    d = Dealer(c, "D01")
    a, b = d.join(), d.join()
    d.register(a.sid)
    for _ in range(calls):
        d.call(c.choice("caller", [a, b]).sid)
    for _ in range(n):
        c.reach(d.step(OPS + ["answer", "call"], 2))
    p = c.str("observed procedure")
    d.check_registered(p)
    d.register((c.choice("observer", d.present()) if d.present() else d.join()).sid, p)


def two(c, n):
    d = apart(c, "D01", n, OPS)
    p = c.str("observed procedure")
    d.check_registered(p)
    d.register((c.choice("observer", d.present()) if d.present() else d.join()).sid, p)


def many(c, n, few=False):
    population.callees(c, "D01", n, few)


def again(c, n):
    population.registrations_again(c, n)


def holder(c, n):
    population.owner(c, "D01", n)


HARNESSES = [
    Harness("histories", histories, quick={"n": 4, "most": 2}, thorough={"n": 5, "most": 3},
            labels=OPS + ["registered", "already exists", "unregistered"],
            bounds="every history of up to 4 (thorough 5) operations of up to 2 (thorough 3) sessions, which may leave and join "
                   "again; any session ids, procedures, request and registration ids"),
    Harness("wide", histories, quick={"n": 3, "most": 3}, thorough={"n": 4, "most": 4}, labels=OPS,
            bounds="every history of up to 3 (thorough 4) operations of up to 3 (thorough 4) sessions"),
    Harness("with-calls", with_calls, quick={"n": 1, "calls": 1}, thorough={"n": 2, "calls": 2},
            labels=["leave", "answer", "call"],
            bounds="one (thorough two) calls, then 1 (thorough 2) operations including calls and answers"),
    Harness("apart", two, quick={"n": 2}, thorough={"n": 4}, labels=["apart"],
            bounds="two dealers in one process, one session each, 2 (thorough 4) operations on either"),
    Harness("many", many, quick={"n": 300}, thorough={"n": 1100}, labels=["many"], extra=True,
            bounds="300 (thorough 1100) registrations and pending calls at once"),
    Harness("crowded", many, quick={"n": 1100, "few": True}, thorough={"n": 4200, "few": True}, labels=["many"], extra=True,
            bounds="1100 (thorough 4200) registrations and pending calls at once; first and last acting only in part"),
    Harness("again", again, quick={"n": 1100}, thorough={"n": 4200}, labels=["again"], extra=True,
            bounds="one procedure registered and given up 1100 (thorough 4200) times, while another lasts"),
    Harness("holder", holder, quick={"n": 300}, thorough={"n": 1100}, labels=["holder"], extra=True,
            bounds="one session with 300 (thorough 1100) registrations; up to two are given up, then all"),
]
