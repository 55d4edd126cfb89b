"""Subscription IDs identify one topic and replies reach the requester."""
from . import many as population
from .broker import Broker, apart, history
from .common import Harness

OPS = ["subscribe", "unsubscribe", "leave"]


def histories(c, n, most):
    b = history(c, "B02", n, most, OPS)
    b.observe()
    b.join()
    s = b.sessions[-1]
    b.subscribe(s.sid)


def crowd(c, sessions, topics):
    """Several sessions, each subscribing any topics; one ends one of its subscriptions."""
    b = Broker(c, "B02")
    for _ in range(sessions):
        s = b.join()
        for _ in range(topics):
            b.subscribe(s.sid)
    b.unsubscribe(c.choice("who", b.sessions).sid)
    b.observe()
    b.unsubscribe(c.choice("who", b.sessions).sid)
    c.reach("two unsubscribed")


def two(c, n):
    b = apart(c, "B02", n, OPS)
    b.observe()
    b.subscribe(b.join().sid)


def many(c, n, few=False):
    population.subscribers(c, "B02", n, few)


def again(c, n):
    population.subscriptions_again(c, "B02", n)


def holder(c, n):
    population.holder(c, "B02", n)


HARNESSES = [
    Harness("histories", histories, quick={"n": 4, "most": 2}, thorough={"n": 5, "most": 3},
            labels=OPS + ["delivered", "nobody"],
            bounds="every history of up to 4 (thorough 5) operations of up to 2 (thorough 3) sessions, which may leave and "
                   "join again; any session ids, topics, request and subscription ids"),
    Harness("wide", histories, quick={"n": 3, "most": 3}, thorough={"n": 4, "most": 4}, labels=OPS,
            bounds="every history of up to 3 (thorough 4) operations of up to 3 (thorough 4) sessions"),
    Harness("crowd", crowd, quick={"sessions": 2, "topics": 2}, thorough={"sessions": 3, "topics": 2},
            labels=["two unsubscribed"], bounds="2 (thorough 3) sessions with up to 2 subscriptions each to any topics, one "
                                                "ended, an event, another one ended"),
    Harness("apart", two, quick={"n": 2}, thorough={"n": 4}, labels=["apart"],
            bounds="two brokers in one process, one session each, 2 (thorough 4) operations on either"),
    Harness("many", many, quick={"n": 300}, thorough={"n": 1100}, labels=["many"], extra=True,
            bounds="300 (thorough 1100) sessions subscribed to one topic and each to one of its own"),
    Harness("crowded", many, quick={"n": 1100, "few": True}, thorough={"n": 4200, "few": True}, labels=["many"], extra=True,
            bounds="1100 (thorough 4200) sessions subscribed to one topic and each to one of its own; first and last acting only in part"),
    Harness("again", again, quick={"n": 1100}, thorough={"n": 4200}, labels=["again"], extra=True,
            bounds="one topic subscribed and given up 1100 (thorough 4200) times, while another subscription lasts"),
    Harness("holder", holder, quick={"n": 300}, thorough={"n": 1100}, labels=["holder"], extra=True,
            bounds="one session with 300 (thorough 1100) subscriptions, none, half or all of them also another's; one or two are given up, then all"),
]
