"""Invalid broker requests are refused without effect."""
from . import many as population
from .broker import OTHERS, Broker, history, message
from .common import Harness, lnot
from .wire import build

OPS = ["subscribe", "unsubscribe", "leave"]
BAD = ["join twice", "leave stranger", "subscribe stranger", "unsubscribe stranger", "publish stranger", "unsubscribe not held",
       "message type"]


def refused(c, b, what, types):
    """One invalid request; the outcome and its label."""
    br = b.b
    if what == "join twice":
        s = c.choice("who", b.present())
        details = s.details if c.choice("the same details", [False, True]) else b.details(s.sid)
        return c.call(br.add_session, details), "adding an attached session"
    if what == "leave stranger":
        return c.call(br.remove_session, b.stranger()), "removing a session that is not attached"
    if what == "subscribe stranger":
        m = build(c, "Subscribe", {"request_id": c.id("request"), "options": c.open("options"), "topic": c.str("topic")})
        return c.call(br.receive_message, b.stranger(), m), "SUBSCRIBE of a session that is not attached"
    if what == "unsubscribe stranger":
        m = build(c, "Unsubscribe", {"request_id": c.id("request"), "subscription_id": c.id("subscription")})
        return c.call(br.receive_message, b.stranger(), m), "UNSUBSCRIBE of a session that is not attached"
    if what == "publish stranger":
        m = build(c, "Publish", {"request_id": c.id("request"), "options": c.mkdict([("acknowledge", c.bool("ack"))]),
                                 "topic": c.str("topic")})
        return c.call(br.receive_publish, b.stranger(), m), "PUBLISH of a session that is not attached"
    if what == "unsubscribe not held":
        s = c.choice("who", b.present())
        i = c.id("subscription")
        c.assume(lnot(b.holds(s.sid, i)))
        m = build(c, "Unsubscribe", {"request_id": c.id("request"), "subscription_id": i})
        return c.call(br.receive_message, s.sid, m), "UNSUBSCRIBE of a subscription the session does not hold"
    cls = c.choice("class", types)
    if c.choice("attached", [True, False]):
        sid = c.choice("who", b.present()).sid
    else:
        sid = b.stranger()
    return c.call(br.receive_message, sid, message(c, cls)), "a message type a broker does not handle"


def bad(c, b, types):
    what = c.choice("refused", BAD)
    o, label = refused(c, b, what, types)
    c.check(not o.ok, label + " is refused")
    c.check(o.raised(ValueError), label + " is refused with ValueError")
    c.reach(what)


def probe(c, b, full):
    """Any one observation of the state afterwards."""
    what = c.choice("probe", ["publish", "join", "leave", "subscribe", "unsubscribe", "stranger"] if full else
                    ["publish", "members"])
    if what == "join":
        sid = b.stranger()
        o = c.call(b.b.add_session, b.details(sid))
        c.check(o.ok, "after the refused request a session that is not attached can join")
        return
    if what == "leave":
        s = c.choice("who", b.present())
        o = c.call(b.b.remove_session, s.sid)
        c.check(o.ok, "after the refused request an attached session can leave")
        b.drop(s)
    elif what == "subscribe":
        s = c.choice("who", b.present())
        c.check(b.subscribe(s.sid) is not None, "after the refused request an attached session can subscribe")
    elif what == "unsubscribe":
        s = c.choice("who", b.present())
        before = b.unsubscribed
        b.unsubscribed = False
        b.unsubscribe(s.sid)
        c.check(b.unsubscribed, "after the refused request a held subscription can be ended")
        b.unsubscribed = before
    elif what == "stranger":
        m = build(c, "Publish", {"request_id": c.id("request"), "options": c.open("options"), "topic": c.str("topic")})
        o = c.call(b.b.receive_publish, b.stranger(), m)
        c.check(o.raised(ValueError), "after the refused request sessions that are not attached are still not")
        return
    elif what == "members":
        for s in b.sessions:
            o = c.call(b.b.add_session, b.details(s.sid))
            c.check(o.raised(ValueError) if s.attached else True, "after the refused request attached sessions are still attached")
        return
    b.observe()


def histories(c, n, most, types, full):
    b = history(c, "B04", n, most, OPS)
    if not b.present():
        b.join()
    bad(c, b, types)
    probe(c, b, full)


def fresh(c):
    """A broker without sessions."""
    b = Broker(c, "B04")
    what = c.choice("refused", [w for w in BAD if "stranger" in w])
    o, label = refused(c, b, what, OTHERS)
    c.check(o.raised(ValueError), label + " is refused with ValueError")
    b.observe()
    c.reach(what)


def twice(c, n, most):
    """Two refused requests, at different times."""
    b = history(c, "B04", n, most, OPS)
    if not b.present():
        b.join()
    bad(c, b, ["Event"])
    b.step(OPS, most)
    if not b.present():
        b.join()
    bad(c, b, ["Event"])
    b.observe()


def holder(c, n):
    population.holder(c, "B04", n)


HARNESSES = [
    Harness("fresh", fresh, labels=[w for w in BAD if "stranger" in w], bounds="a broker without sessions"),
    Harness("types", histories, quick={"n": 1, "most": 1, "types": OTHERS, "full": False},
            thorough={"n": 2, "most": 2, "types": OTHERS, "full": True}, labels=BAD,
            bounds="all 21 message types a broker does not handle, after up to 1 (thorough 2) operations"),
    Harness("histories", histories, quick={"n": 2, "most": 2, "types": ["Event"], "full": True},
            thorough={"n": 4, "most": 2, "types": ["Event"], "full": True}, labels=BAD + OPS,
            bounds="every history of up to 2 (thorough 4) operations of up to 2 sessions, then any invalid request, then "
                   "any other operation and an event"),
    Harness("wide", histories, quick={"n": 3, "most": 2, "types": ["Event"], "full": False},
            thorough={"n": 3, "most": 3, "types": ["Event"], "full": True}, labels=BAD + OPS,
            bounds="every history of up to 3 operations of up to 2 (thorough 3) sessions, then any invalid request, then an event"),
    Harness("twice", twice, quick={"n": 1, "most": 2}, thorough={"n": 2, "most": 2}, labels=BAD,
            bounds="two refused requests with operations before, between and after"),
    Harness("holder", holder, quick={"n": 300}, thorough={"n": 1100}, labels=["holder"], extra=True,
            bounds="one session with 300 (thorough 1100) subscriptions, none, half or all of them also another's; one or two are given up, then all"),
]
