"""A client accepts a reply exactly when it is owed one."""
from . import many as population
from .client import CODE, REPLIES, REPLY, REQUESTS, Client, two_sessions
from .common import Harness


def replies(c, sends, receives, prefix):
    """Requests of any kinds, then replies of any kinds, with any IDs."""
    s = Client(c, "C01")
    if prefix and c.choice("before", [True, False]):
        s.have("registration", 1)
        s.have("subscription", 1)
    for _ in range(c.choice("requests", list(range(1, sends + 1)))):
        s.send(c.choice("request", REQUESTS), 0)
    for _ in range(receives):
        s.receive(c.choice("reply", REPLIES))


def single(c, kind, sends, n):
    """Requests of one kind and their replies, in any order."""
    s = Client(c, "C01")
    if kind == "Unregister":
        s.have("registration", 2)
    if kind == "Unsubscribe":
        s.have("subscription", 2)
    rep = [k for k, v in REPLY.items() if v == kind] + ["Error"]
    s.send(kind)
    for _ in range(n):
        s.step([kind] if len(s.requests) < sends + 4 else [], rep)


def three(c, kind, n):
    """Three requests of one kind, then replies."""
    s = Client(c, "C01")
    if kind == "Unregister":
        s.have("registration", 1)
    if kind == "Unsubscribe":
        s.have("subscription", 1)
    for _ in range(3):
        s.send(kind, 0)
    rep = [k for k, v in REPLY.items() if v == kind] + ["Error"]
    for _ in range(n):
        s.receive(c.choice("reply", rep))
    c.reach("three")


def interleaved(c, n):
    """Any messages in any order."""
    s = Client(c, "C01")
    s.send(c.choice("request", ["Call", "Register", "Subscribe"]))
    for _ in range(n):
        s.step(REQUESTS, REPLIES, 0)


def kinds(c, n):
    """Requests of every kind with one ID, then replies to it."""
    s = Client(c, "C01")
    s.have("registration", 1)
    s.have("subscription", 1)
    i = c.id("same")
    a = c.choice("sent", list(range(1 << len(REQUESTS)) if n > 2 else [63, 21, 42, 7, 56, 49]))
    for b, k in enumerate(REQUESTS):
        if a >> b & 1:
            s.send(k, 0, i)
    for _ in range(n):
        s.receive(c.choice("reply", REPLIES), ident=i)


def sessions(c, n):
    prefix = c.choice("first", [["Call"], ["Register"], ["Publish"], ["Subscribe"], ["registration", "Unregister"], ["subscription", "Unsubscribe"]])
    two_sessions(c, "C01", prefix, REPLIES, n)


def many(c, n, few=False):
    population.requests(c, n, few)


def again(c, n):
    population.requests_again(c, n)


def stream(c, n):
    population.results(c, n)


HARNESSES = [
    Harness("replies", replies, quick={"sends": 2, "receives": 2, "prefix": True},
            thorough={"sends": 3, "receives": 2, "prefix": True},
            labels=["received " + r for r in REPLIES] + ["refused " + r for r in REPLIES],
            bounds="up to 2 (thorough 3) requests of any kinds, then 2 replies of any kinds, with and without registrations and "
                   "subscriptions before; any IDs, equal ones included"),
    *[Harness("single-" + k, single, quick={"kind": k, "sends": 2, "n": 3}, thorough={"kind": k, "sends": 3, "n": 5},
              labels=["sent " + k], bounds=f"{k} requests and replies to them in any order, 3 (thorough 5) after the first")
      for k in REQUESTS],
    *[Harness("three-" + k, three, quick={"kind": k, "n": 2}, thorough={"kind": k, "n": 3}, labels=["three"],
              bounds=f"three {k} requests, then 2 (thorough 3) replies or errors") for k in REQUESTS],
    Harness("interleaved", interleaved, quick={"n": 2}, thorough={"n": 3}, labels=["received Error"],
            bounds="one request, then 2 (thorough 3) requests or replies of any kind"),
    Harness("kinds", kinds, quick={"n": 2}, thorough={"n": 3}, labels=["received Error"],
            bounds="requests of several kinds with one ID, 2 (thorough 3) replies to it"),
    Harness("two-sessions", sessions, quick={"n": 1}, thorough={"n": 2}, labels=["two sessions"],
            bounds="two sessions at once, 1 (thorough 2) messages to either"),
    Harness("many", many, quick={"n": 300}, thorough={"n": 1100}, labels=["many"], extra=True,
            bounds="300 (thorough 1100) outstanding requests of one kind"),
    Harness("crowded", many, quick={"n": 1100, "few": True}, thorough={"n": 4200, "few": True}, labels=["many"], extra=True,
            bounds="1100 (thorough 4200) outstanding requests of one kind; first and last acting only in part"),
    Harness("again", again, quick={"n": 1100}, thorough={"n": 4200}, labels=["again"], extra=True,
            bounds="1100 (thorough 4200) requests of one kind answered one after the other, while another waits"),
    Harness("stream", stream, quick={"n": 1100}, thorough={"n": 4200}, labels=["stream"], extra=True,
            bounds="one call with 1100 (thorough 4200) parts and progressive results"),
]
ASSUMPTIONS = [
    "outstanding requests of one kind have different IDs; a further CALL with the ID of an outstanding call belongs to it",
    "progress and acknowledge are booleans or absent",
]
