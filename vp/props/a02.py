"""The acceptor's handshake is one-way and final."""
from .common import Harness
from .handshake import METHODS, OTHERS, Server

ALL = METHODS + ["unknown", "none"]


def step(c, s, methods, others, kinds):
    what = c.choice("message", ["hello", "authenticate", "abort", "other"])
    if what == "hello":
        s.ask(methods)
    elif what == "authenticate":
        s.authenticate(kinds)
    elif what == "abort":
        s.abort()
    else:
        s.other(others)
    s.observe()


def histories(c, methods, n, others, kinds):
    s = Server(c, "A02", salted=False)
    s.observe()
    for _ in range(n):
        if s.state == "gone":
            break
        step(c, s, methods, others, kinds)


def after(c, methods, n, others, kinds):
    """A handshake brought to each of its ends, then any messages."""
    s = Server(c, "A02", salted=False, authenticator=c.choice("authenticator", [True, False]))
    s.ask(methods)
    if s.state == "challenged" and c.choice("on", [True, False]):
        s.authenticate(kinds)
    s.observe()
    if s.state == "gone":
        return
    c.reach("state " + s.state)
    for _ in range(n):
        step(c, s, methods[:1] if n > 1 else methods, others, kinds)


def others(c):
    s = Server(c, "A02")
    state = c.choice("state", ["start", "challenged", "welcomed", "aborted"])
    if state == "aborted":
        s.abort()
    elif state != "start":
        s.ask(["anonymous" if state == "welcomed" else "wampcra"])
    c.assume(s.state == state)
    s.other(OTHERS)
    s.observe()
    c.reach(state)


L = ["welcome", "abort", "second hello", "unexpected authenticate", "received abort", "other"]
HARNESSES = [
    Harness("histories", histories, quick={"methods": ["anonymous", "ticket", "wampcra"], "n": 3, "others": ["Publish"], "kinds": ["masked"]},
            thorough={"methods": METHODS, "n": 4, "others": ["Publish", "Challenge"], "kinds": ["masked"]}, labels=L,
            bounds="every sequence of 3 (thorough 4) messages"),
    Harness("after", after, quick={"methods": ALL, "n": 1, "others": ["Publish", "Welcome"], "kinds": ["masked"]},
            thorough={"methods": ALL, "n": 2, "others": ["Publish", "Welcome"], "kinds": ["masked", "text"]},
            labels=L + ["state challenged", "state welcomed", "state aborted", "unusable"],
            bounds="every state a handshake ends in, then 1 (thorough 2) further messages"),
    Harness("others", others, labels=["start", "challenged", "welcomed", "aborted", "other"],
            bounds="every message type outside the handshake in every state"),
]
ASSUMPTIONS = [
    "HMAC-SHA256 and Ed25519 are ideal: deterministic, without collisions, one signature per key and message",
    "the authenticator only accepts well-formed public keys (32 bytes in hex)",
    "what follows a HELLO refused for its authentication method is unspecified",
]
