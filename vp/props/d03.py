"""Each answer reaches its own caller, once, and only from its callee."""
from . import many as population
from .common import Harness
from .dealer import Dealer, apart, busy

OPS = ["register", "unregister", "leave", "call", "answer"]


def content(c):
    d = Dealer(c, "D03")
    s = d.join()
    d.register(s.sid)
    t = s if c.choice("self", [True, False]) else d.join()
    d.call(t.sid)
    c.assume(bool(d.calls))
    d.full = True
    d.answer(s.sid, only="right")
    d.answer(s.sid)


def answers(c, d, n, outsiders):
    for _ in range(n):
        who = c.choice("who", d.present() + ([None] if outsiders else []))
        d.answer(who.sid if who else d.stranger())


def histories(c, n, most, ops=OPS):
    d = Dealer(c, "D03")
    d.join()
    for _ in range(c.choice("length", list(range(1, n + 1)))):
        c.reach(d.step(ops, most))
    if not d.present():
        d.join()
    answers(c, d, 2, False)


def pending(c, callees, callers, calls, n, ops):
    """Answers of anybody to several pending calls."""
    d = Dealer(c, "D03")
    busy(c, d, callees, callers, calls)
    for _ in range(ops):
        c.reach(d.step(["unregister", "leave"], 0))
    answers(c, d, n, True)


def same_ids(c, callers):
    """Several callers that use the same request ID, and a caller that calls again after the answer."""
    d = Dealer(c, "D03")
    s = d.join()
    c.assume(d.register(s.sid) is not None)
    p = d.registrations[0].procedure
    r = c.id("call")
    for _ in range(callers):
        d.call(d.join().sid, p, r)
    d.answer(s.sid, only="right")
    d.call(c.choice("again", d.sessions[1:]).sid, p, r, only="new")
    for _ in range(callers):
        d.answer(s.sid)
    c.reach("same ids")


def duplicate(c):
    """A caller that repeats a request ID while it is pending: refused, or another call to answer."""
    d = Dealer(c, "D03")
    a, b = d.join(), d.join()
    c.assume(d.register(a.sid) is not None)
    p = d.registrations[0].procedure
    r = c.id("call")
    d.call(b.sid, p, r)
    d.call(b.sid, p, r, duplicates=True)
    for _ in range(3):
        d.answer(a.sid)
    c.reach("repeated")


def progressive(c, n):
    """Answers of anybody to calls that may have progressive parts and results."""
    d = Dealer(c, "D03", progress="true")
    a, b, t = d.join(), d.join(), d.join()
    c.assume(d.register(a.sid) is not None)
    p = d.registrations[0].procedure
    d.call(t.sid, p)
    for _ in range(n):
        d.answer(c.choice("who", [a, b, t]).sid)
    c.reach("progressive")


def two(c, n):
    d = apart(c, "D03", n, OPS)
    if not d.present():
        d.join()
    answers(c, d, 1, False)


def many(c, n, few=False):
    population.callees(c, "D03", n, few)


def stream(c, n):
    population.stream(c, "D03", n)


def again(c, n):
    population.calls_again(c, "D03", n)


HARNESSES = [
    Harness("content", content, labels=["answered", "refused"],
            bounds="any YIELD or ERROR: up to 2 positional and 1 keyword argument of any value, or a payload of up to 3 bytes, "
                   "any error URI, up to one error detail"),
    Harness("histories", histories, quick={"n": 3, "most": 2}, thorough={"n": 4, "most": 3},
            labels=OPS + ["answered", "refused"],
            bounds="every history of up to 3 (thorough 4) operations of up to 2 (thorough 3) sessions, which may leave and join "
                   "again, then two answers of any session to any ids"),
    Harness("pending", pending, quick={"callees": 2, "callers": 1, "calls": 2, "n": 2, "ops": 1},
            thorough={"callees": 2, "callers": 2, "calls": 3, "n": 3, "ops": 1}, labels=["answered", "refused"],
            bounds="2 callees, 1 (thorough 2) callers, 2 (thorough 3) pending calls, one leave or unregister, then 2 (thorough 3) "
                   "answers of anybody to any ids"),
    Harness("same-ids", same_ids, quick={"callers": 2}, thorough={"callers": 3}, labels=["same ids"],
            bounds="2 (thorough 3) callers using one request ID, one of them again after the answer"),
    Harness("duplicate", duplicate, labels=["repeated"], bounds="one repeated request ID, three answers"),
    Harness("progressive", progressive, quick={"n": 2}, thorough={"n": 3}, labels=["progressive"],
            bounds="a call that may be progressive and ask for progressive results, 2 (thorough 3) answers of anybody to any ids, "
                   "progressive or not"),
    Harness("apart", two, quick={"n": 3}, thorough={"n": 4}, labels=["apart"],
            bounds="two dealers in one process, one session each, 3 (thorough 4) operations on either"),
    Harness("many", many, quick={"n": 300}, thorough={"n": 1100}, labels=["many"], extra=True,
            bounds="300 (thorough 1100) registrations and pending calls at once"),
    Harness("crowded", many, quick={"n": 1100, "few": True}, thorough={"n": 4200, "few": True}, labels=["many"], extra=True,
            bounds="1100 (thorough 4200) registrations and pending calls at once; first and last acting only in part"),
    Harness("stream", stream, quick={"n": 1100}, thorough={"n": 4200}, labels=["stream"], extra=True,
            bounds="one call with 1100 (thorough 4200) progressive parts or results or both, while another call waits"),
    Harness("again", again, quick={"n": 1100}, thorough={"n": 4200}, labels=["again"], extra=True,
            bounds="1100 (thorough 4200) calls one after the other, while another call waits"),
]
ASSUMPTIONS = ["callers are attached"]
