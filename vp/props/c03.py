"""A client answers an invocation exactly once, progressive results aside."""
from . import many as population
from .client import Client, two_sessions
from .common import Harness


def answers(c, registrations, n, sends, receives, before=1):
    s = Client(c, "C03")
    s.have("registration", registrations)
    for _ in range(before):
        s.receive("Invocation")
    for _ in range(n):
        c.reach(s.step(sends, receives))
    s.send("Yield")


def fresh(c):
    s = Client(c, "C03")
    s.send(c.choice("message", ["Yield", "Error"]))
    s.send("Yield")


def ended(c):
    """Invocations of an ended registration can still be answered, once."""
    s = Client(c, "C03")
    s.have("registration", 1)
    s.receive("Invocation")
    r = s.send("Unregister")
    if c.choice("ended", [True, False]):
        s.receive("Unregistered", ident=r.ident)
    for _ in range(2):
        s.send("Yield")
    c.reach("ended")


def sessions(c, n):
    prefix = c.choice("first", [["registration", "Invocation"]])
    two_sessions(c, "C03", prefix, ["Yield", "Invocation"], n)


L = ["sent Yield", "refused Yield"]
def many(c, n, few=False):
    population.held(c, "C03", n, few)


def again(c, n):
    population.answers_again(c, n)


HARNESSES = [
    Harness("fresh", fresh, labels=["refused Yield", "refused Error"], bounds="a session without invocations"),
    Harness("answers", answers, quick={"registrations": 1, "n": 3, "sends": ["Yield", "Error"], "receives": ["Invocation"]},
            thorough={"registrations": 1, "n": 4, "sends": ["Yield", "Error"], "receives": ["Invocation"]},
            labels=L + ["sent Error", "refused Error"],
            bounds="an INVOCATION, then 3 (thorough 4) INVOCATIONs, YIELDs (progressive or not) and ERRORs of any IDs in any "
                   "order, then a YIELD"),
    Harness("several", answers,
            quick={"registrations": 1, "n": 2, "sends": ["Yield", "Error"], "receives": [], "before": 3},
            thorough={"registrations": 2, "n": 3, "sends": ["Yield", "Error"], "receives": ["Invocation"], "before": 3},
            labels=L + ["sent Error", "refused Error"],
            bounds="three INVOCATIONs, then 2 (thorough 3) answers of any IDs, then a YIELD"),
    Harness("other", answers,
            quick={"registrations": 1, "n": 2, "sends": ["Call", "Publish", "Unregister", "Yield"],
                   "receives": ["Result", "Error", "Unregistered", "Event"]},
            thorough={"registrations": 1, "n": 3, "sends": ["Call", "Publish", "Unregister", "Yield", "Register"],
                      "receives": ["Result", "Error", "Unregistered", "Event", "Registered"]},
            labels=L, bounds="an INVOCATION, then 2 (thorough 3) messages of other kinds, then a YIELD"),
    Harness("ended", ended, labels=L + ["ended"], bounds="an invocation of a registration that was ended"),
    Harness("two-sessions", sessions, quick={"n": 2}, thorough={"n": 3}, labels=["two sessions"],
            bounds="two sessions at once, 2 (thorough 3) messages to either"),
    Harness("many", many, quick={"n": 300}, thorough={"n": 1100}, labels=["many"], extra=True,
            bounds="300 (thorough 1100) registrations, subscriptions or invocations at once"),
    Harness("crowded", many, quick={"n": 1100, "few": True}, thorough={"n": 4200, "few": True}, labels=["many"], extra=True,
            bounds="1100 (thorough 4200) registrations, subscriptions or invocations at once; first and last acting only in part"),
    Harness("again", again, quick={"n": 1100}, thorough={"n": 4200}, labels=["again"], extra=True,
            bounds="1100 (thorough 4200) invocations answered one after the other, or one with as many progressive results, while another waits"),
]
ASSUMPTIONS = [
    "progress is a boolean or absent",
    "sending an ERROR for an invocation that is not to be answered (any more) is unspecified",
]
