"""Publications are forwarded intact and acknowledged iff asked."""
from . import many as population
from .broker import Broker, apart, history
from .common import Harness

OPS = ["subscribe", "unsubscribe", "leave", "publish"]


def contents(c):
    """Any publication, with and without subscribers."""
    b = Broker(c, "B03")
    s = b.join()
    if c.choice("subscriber", [True, False]):
        b.subscribe(s.sid if c.choice("self", [True, False]) else b.join().sid)
    b.publish(s.sid, full=True)


def sequence(c, n, most):
    """Publications between any other operations."""
    b = history(c, "B03", n, most, OPS)
    here = b.present()
    s = c.choice("publisher", here) if here else b.join()
    b.publish(s.sid, full=True)


def ids(c, n):
    """Publications in a row, acknowledged, delivered, or both."""
    b = Broker(c, "B03")
    s = b.join()
    b.subscribe(s.sid)
    for _ in range(n):
        full = c.choice("kind", ["acknowledged", "plain", "subscribe"])
        if full == "subscribe":
            b.subscribe(s.sid)
        else:
            b.publish(s.sid, ack=full == "acknowledged")
    c.reach("row")


def two(c, n):
    b = apart(c, "B03", n, ["subscribe", "leave", "publish"])
    here = b.present()
    b.publish((here[0] if here else b.join()).sid, ack=True)


def many(c, n, few=False):
    population.subscribers(c, "B03", n, few)


HARNESSES = [
    Harness("contents", contents, labels=["event", "acknowledged"],
            bounds="any publication with up to 2 positional arguments and 1 keyword argument of any value, any options"),
    Harness("sequence", sequence, quick={"n": 2, "most": 2}, thorough={"n": 4, "most": 2}, labels=["event", "acknowledged"],
            bounds="every history of up to 2 (thorough 4) operations, then any publication"),
    Harness("ids", ids, quick={"n": 4}, thorough={"n": 6}, labels=["row"],
            bounds="up to 4 (thorough 6) publications to any topics in a row, with or without acknowledgement"),
    Harness("apart", two, quick={"n": 2}, thorough={"n": 3}, labels=["apart"],
            bounds="two brokers in one process, one session each, 2 (thorough 3) operations on either"),
    Harness("many", many, quick={"n": 300}, thorough={"n": 1100}, labels=["many"], extra=True,
            bounds="300 (thorough 1100) sessions subscribed to one topic and each to one of its own"),
    Harness("crowded", many, quick={"n": 1100, "few": True}, thorough={"n": 4200, "few": True}, labels=["many"], extra=True,
            bounds="1100 (thorough 4200) sessions subscribed to one topic and each to one of its own; first and last acting only in part"),
]
ASSUMPTIONS = ["acknowledge is a boolean or absent"]
