"""Invalid dealer requests are refused without effect."""
from . import many as population
from .broker import message
from .common import Harness, eq, lnot
from .dealer import OTHERS, Dealer, busy
from .wire import build

OPS = ["register", "unregister", "leave", "call", "answer"]
BAD = ["join twice", "leave stranger", "register stranger", "unregister stranger", "unregister not owned",
       "error not for invocation", "message type"]


def someone(c, d):
    """An attached session or one that is not."""
    here = d.present()
    s = c.choice("who", here + [None])
    return s.sid if s is not None else d.stranger()


def bad(c, d, types, kinds=BAD):
    what = c.choice("refused", kinds)
    dl = d.d
    if what == "join twice":
        s = c.choice("who", d.present())
        details = s.details if c.choice("the same details", [False, True]) else d.details(s.sid)
        o = c.call(dl.add_session, details)
        label = "adding an attached session"
    elif what == "leave stranger":
        o, label = c.call(dl.remove_session, d.stranger()), "removing a session that is not attached"
    elif what == "register stranger":
        m = build(c, "Register", {"request_id": c.id("request"), "options": c.open("options"), "procedure": c.str("procedure")})
        o, label = c.call(dl.receive_message, d.stranger(), m), "REGISTER of a session that is not attached"
    elif what in ("unregister stranger", "unregister not owned"):
        i = c.id("registration")
        m = build(c, "Unregister", {"request_id": c.id("request"), "registration_id": i})
        if what == "unregister stranger":
            sid = d.stranger()
        else:
            sid = c.choice("who", d.present()).sid
            c.assume(lnot(d.owns(sid, i)))
        o, label = c.call(dl.receive_message, sid, m), "UNREGISTER of a registration the session does not own"
    elif what == "error not for invocation":
        t = c.int("error for")
        c.assume(lnot(eq(t, 68)))
        m = build(c, "Error", {"message_type": t, "request_id": c.id("invocation"), "uri": c.str("uri"), "details": c.open("details")})
        o, label = c.call(dl.receive_message, someone(c, d), m), "an ERROR that is not for an invocation"
    else:
        m = message(c, c.choice("class", types))
        o, label = c.call(dl.receive_message, someone(c, d), m), "a message type a dealer does not handle"
    c.check(not o.ok, label + " is refused")
    c.check(o.raised(ValueError), label + " is refused with ValueError")
    c.reach(what)


def probe(c, d, kinds):
    what = c.choice("probe", kinds)
    A = "after the refused request "
    if what == "registered":
        d.check_registered(c.str("observed procedure"))
    elif what == "call":
        p = c.str("observed procedure")
        s = c.choice("by", d.present())
        n = len(d.calls)
        k = d.call(s.sid, p, only="new")
        c.check(d.registered(p) if k is not None else lnot(d.registered(p)), A + "the same procedures are registered")
        if k is not None:
            c.check(len(d.calls) == n + 1, A + "calls are routed")
            for g in d.registrations:
                if g.live is not False:
                    c.check(d.implied(g, p, k), A + "calls go to the same sessions")
    elif what == "answer":
        s = c.choice("by", d.present())
        c.check(d.answer(s.sid, only="right"), A + "pending calls can be answered")
        c.reach("answer")
    elif what == "join":
        o = c.call(d.d.add_session, d.details(d.stranger()))
        c.check(o.ok, A + "a session that is not attached can join")
    elif what == "leave":
        s = c.choice("by", d.present())
        o = c.call(d.d.remove_session, s.sid)
        c.check(o.ok, A + "an attached session can leave")
        d.drop(s)
        d.check_registered(c.str("observed procedure"))
    elif what == "members":
        for s in d.present():
            o = c.call(d.d.add_session, d.details(s.sid))
            c.check(o.raised(ValueError), A + "attached sessions are still attached")
    elif what == "stranger":
        m = build(c, "Register", {"request_id": c.id("request"), "options": c.open("options"), "procedure": c.str("procedure")})
        o = c.call(d.d.receive_message, d.stranger(), m)
        c.check(o.raised(ValueError), A + "sessions that are not attached are still not")
    elif what == "register":
        p = c.str("observed procedure")
        s = c.choice("by", d.present())
        free = lnot(d.registered(p))
        k = d.register(s.sid, p)
        c.check(free if k is not None else lnot(free), A + "the same procedures are free")
    elif what == "unregister":
        s = c.choice("by", d.present())
        c.check(d.unregister(s.sid), A + "registrations can be ended by their owner")
        d.check_registered(c.str("observed procedure"))


ALL = ["registered", "call", "answer", "join", "leave", "members", "stranger", "register", "unregister"]


def histories(c, n, most, types, probes):
    d = Dealer(c, "D06")
    d.join()
    for _ in range(c.choice("length", list(range(1, n + 1)))):
        c.reach(d.step(OPS, most))
    if not d.present():
        d.join()
    bad(c, d, types)
    probe(c, d, probes)


def pending(c, callees, callers, calls, kinds):
    """A busy dealer."""
    d = Dealer(c, "D06")
    busy(c, d, callees, callers, calls)
    bad(c, d, ["Cancel"], kinds)
    probe(c, d, ALL)


def fresh(c):
    """A dealer without sessions."""
    d = Dealer(c, "D06")
    bad(c, d, OTHERS, [b for b in BAD if b not in ("join twice", "unregister not owned")])
    d.check_registered(c.str("observed procedure"))
    d.join()
    probe(c, d, ["registered", "register", "call", "join", "leave"])


def holder(c, n):
    population.owner(c, "D06", n)


HARNESSES = [
    Harness("fresh", fresh, labels=["leave stranger", "register stranger", "unregister stranger", "message type"],
            bounds="a dealer without sessions; all 19 message types a dealer does not handle"),
    Harness("types", histories, quick={"n": 1, "most": 1, "types": OTHERS, "probes": ["registered", "call", "members"]},
            thorough={"n": 2, "most": 2, "types": OTHERS, "probes": ["registered", "call", "members", "answer"]}, labels=BAD,
            bounds="all 19 message types a dealer does not handle, after up to 1 (thorough 2) operations"),
    Harness("histories", histories, quick={"n": 2, "most": 2, "types": ["Event"], "probes": ALL},
            thorough={"n": 3, "most": 3, "types": ["Event"], "probes": ALL}, labels=BAD,
            bounds="every history of up to 2 (thorough 3) operations of up to 2 (thorough 3) sessions, then any invalid request, "
                   "then any other operation"),
    Harness("pending", pending, quick={"callees": 1, "callers": 1, "calls": 2, "kinds": BAD},
            thorough={"callees": 2, "callers": 2, "calls": 2, "kinds": BAD}, labels=BAD + ["answer"],
            bounds="1 (thorough 2) callees and callers, 2 pending calls, any invalid request, any other operation"),
    Harness("holder", holder, quick={"n": 300}, thorough={"n": 1100}, labels=["holder"], extra=True,
            bounds="one session with 300 (thorough 1100) registrations; up to two are given up, then all"),
]
ASSUMPTIONS = ["callers are attached"]
