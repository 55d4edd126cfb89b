"""WELCOME is only sent to clients that proved their identity."""
from .common import Harness
from .handshake import METHODS, Server

ALL = METHODS + ["unknown", "none"]
ROLES = {"broker": {"features": {"x": True}}}


def handshake(c, methods, more):
    """HELLO and AUTHENTICATE with any proof."""
    s = Server(c, "A01", plain=True, roles=ROLES, vary=True)
    s.ask(methods, more)
    if s.state == "challenged":
        s.authenticate()


def open_door(c):
    s = Server(c, "A01", authenticator=False, roles=ROLES, vary=True)
    s.ask(ALL)


def histories(c, methods, n, kinds):
    """Any sequence of messages never leads to WELCOME without the proof."""
    s = Server(c, "A01", salted=False, plain=False)
    for _ in range(n):
        what = c.choice("message", ["hello", "authenticate", "abort", "other"])
        if what == "hello":
            s.ask(methods)
        elif what == "authenticate":
            s.authenticate(kinds)
        elif what == "abort":
            s.abort()
        else:
            s.other(["Publish", "Challenge"])


def two(c, methods, n):
    """Two handshakes at once: each is judged by its own challenge and secret."""
    a, b = Server(c, "A01", salted=False), Server(c, "A01", salted=False)
    a.ask(methods)
    b.ask(methods)
    for _ in range(n):
        s = c.choice("where", [a, b])
        if s.state == "challenged":
            s.authenticate(["masked"])
    c.reach("two")


def again(c, methods, texts):
    """Handshakes one after the other with one authenticator: what an earlier one decided or proved is worth nothing."""
    a = Server(c, "A01", salted=False)
    m = c.choice("first", methods)
    a.ask([m])
    if a.state == "challenged":
        a.authenticate(["masked"])
    b = Server(c, "A01", salted=False, before=a)
    b.ask([m] if texts else methods)
    if b.state == "challenged":
        b.authenticate(["masked"])
    c.reach("again")


HARNESSES = [
    Harness("handshake", handshake, quick={"methods": ALL, "more": False}, thorough={"methods": ALL, "more": True},
            labels=["welcome", "abort", "challenge ticket", "challenge wampcra", "challenge cryptosign", "unusable"],
            bounds="every HELLO of the four methods, of none and of an unknown one, every authenticator decision; signatures: the "
                   "right one with any bits flipped, other keys, other challenges, other lengths, undecodable texts"),
    Harness("open-door", open_door, labels=["welcome"], bounds="an acceptor without authenticator"),
    Harness("histories", histories, quick={"methods": METHODS, "n": 3, "kinds": ["masked"]},
            thorough={"methods": METHODS, "n": 4, "kinds": ["masked", "text"]},
            labels=["welcome", "abort", "unexpected authenticate", "second hello", "received abort", "other"],
            bounds="every sequence of 3 (thorough 4) messages; signatures right up to flipped bits"),
    Harness("two", two, quick={"methods": ["wampcra", "cryptosign"], "n": 1}, thorough={"methods": METHODS, "n": 2},
            labels=["welcome", "abort", "two"], bounds="two handshakes at once, 1 (thorough 2) AUTHENTICATEs to either"),
    Harness("again", again, quick={"methods": METHODS, "texts": True}, thorough={"methods": METHODS, "texts": False},
            labels=["welcome", "abort", "again"],
            bounds="two handshakes one after the other with one authenticator, of the same method (thorough: of any methods)"),
]
ASSUMPTIONS = [
    "HMAC-SHA256, PBKDF2 and Ed25519 are ideal: deterministic, without collisions, one signature per key and message",
    "the authenticator only accepts well-formed public keys (32 bytes in hex)",
    "an acceptor without authenticator admits everyone",
    "whether a HELLO after a refused HELLO counts as the first is unspecified",
]
