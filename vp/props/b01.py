"""Events reach exactly the current subscribers."""
from . import many as population
from .broker import Broker, apart, history
from .common import Harness

OPS = ["subscribe", "unsubscribe", "leave", "publish"]


def histories(c, n, most, ops=OPS):
    b = history(c, "B01", n, most, ops)
    b.observe()
    b.observe()


def crowd(c, sessions, topics, n):
    """Several sessions, each subscribing any topics, before any further operations."""
    b = Broker(c, "B01")
    for _ in range(sessions):
        s = b.join()
        for _ in range(topics):
            b.subscribe(s.sid)
    for _ in range(n):
        b.step(["unsubscribe", "leave", "subscribe"], 0)
    b.observe()


def two(c, n):
    b = apart(c, "B01", n, OPS)
    b.observe()


def many(c, n, few=False):
    population.subscribers(c, "B01", n, few)


def again(c, n):
    population.subscriptions_again(c, "B01", n)


def holder(c, n):
    population.holder(c, "B01", n)


HARNESSES = [
    Harness("histories", histories, quick={"n": 4, "most": 2}, thorough={"n": 5, "most": 3},
            labels=OPS + ["delivered", "nobody"],
            bounds="every history of up to 4 (thorough 5) operations of up to 2 (thorough 3) sessions, which may leave and "
                   "join again; any session ids, topics, request and subscription ids"),
    Harness("wide", histories, quick={"n": 3, "most": 3}, thorough={"n": 4, "most": 4},
            labels=OPS + ["delivered", "nobody"],
            bounds="every history of up to 3 (thorough 4) operations of up to 3 (thorough 4) sessions"),
    Harness("crowd", crowd, quick={"sessions": 2, "topics": 2, "n": 1}, thorough={"sessions": 3, "topics": 2, "n": 2},
            labels=["delivered", "nobody"],
            bounds="2 (thorough 3) sessions with up to 2 subscriptions each to any topics, then 1 (thorough 2) more operations"),
    Harness("apart", two, quick={"n": 2}, thorough={"n": 4}, labels=["apart"],
            bounds="two brokers in one process, one session each, 2 (thorough 4) operations on either"),
    Harness("many", many, quick={"n": 300}, thorough={"n": 1100}, labels=["many"], extra=True,
            bounds="300 (thorough 1100) sessions subscribed to one topic and each to one of its own"),
    Harness("crowded", many, quick={"n": 1100, "few": True}, thorough={"n": 4200, "few": True}, labels=["many"], extra=True,
            bounds="1100 (thorough 4200) sessions subscribed to one topic and each to one of its own; first and last acting only in part"),
    Harness("again", again, quick={"n": 1100}, thorough={"n": 4200}, labels=["again"], extra=True,
            bounds="one topic subscribed and given up 1100 (thorough 4200) times, while another subscription lasts"),
    Harness("holder", holder, quick={"n": 300}, thorough={"n": 1100}, labels=["holder"], extra=True,
            bounds="one session with 300 (thorough 1100) subscriptions, none, half or all of them also another's; one or two are given up, then all"),
]
ASSUMPTIONS = ["a publisher that holds a subscription to its own topic is a subscriber like any other"]
