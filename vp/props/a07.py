"""The authenticator judges exactly what the client presented."""
from .client import Wire
from .common import Harness, eq, lnot, same, snap
from .handshake import METHODS, Server, hexa
from .s01 import CODECS, serializer
from .wire import build


def consulted(c, methods):
    s = Server(c, "A07", salted=False, vary=True)
    s.ask(methods, True)
    if s.state == "challenged":
        s.authenticate(["masked"])
        s.authenticate(["masked"])
        c.check(len(s.consulted) == 1, "the authenticator is consulted exactly once per handshake")
    c.reach("consulted")


def histories(c, n):
    s = Server(c, "A07", salted=False)
    for _ in range(n):
        if s.state == "gone":
            break
        what = c.choice("message", ["hello", "authenticate", "abort", "other"])
        if what == "hello":
            s.ask()
        elif what == "authenticate":
            s.authenticate(["masked"])
        elif what == "abort":
            s.abort()
        else:
            s.other(["Publish"])


def two(c):
    """Two handshakes at once."""
    a, b = Server(c, "A07", salted=False), Server(c, "A07", salted=False)
    a.ask()
    b.ask()
    for s in (a, b):
        if s.state == "challenged":
            s.authenticate(["masked"])
    c.reach("two")


def again(c, n):
    """Handshakes one after the other with one authenticator."""
    s = None
    m = c.choice("of", METHODS)
    for _ in range(n):
        s = Server(c, "A07", salted=False, before=s)
        s.ask([m])
        if s.state == "challenged":
            s.authenticate(["masked"])
            c.check(len(s.consulted) == 1, "the authenticator is consulted exactly once per handshake")
    c.reach("again")


def announced(c):
    """What a client's HELLO says."""
    auth = c.w.auth
    m = c.choice("method", METHODS + ["default"])
    authid, realm = c.str("authid"), c.str("realm")
    x = c.choice("extra", ["absent", None, {}, "some"])
    extra = c.mkdict([(c.str("key"), c.any("value", depth=0))]) if x == "some" else x
    before = snap(extra)
    kw = {} if x == "absent" else {"auth_extra": extra}
    if m == "anonymous":
        a = auth.AnonymousAuthenticator(authid, **kw)
    elif m == "ticket":
        a = auth.TicketAuthenticator(authid, c.str("ticket"), **kw)
    elif m == "wampcra":
        a = auth.WAMPCRAAuthenticator(authid, c.str("secret"), **kw)
    elif m == "cryptosign":
        a = auth.CryptoSignAuthenticator(authid, hexa(c, c.bytes("private key", 32)), **kw)
        if x == "some":  # an explicit public key is A06's matter
            c.assume(lnot(c.f(before.__contains__, "pubkey")))
    else:
        a = None
    w = Wire()
    j = c.w.joiner.Joiner(realm, w, a) if a is not None else c.w.joiner.Joiner(realm, w)
    roles = c.choice("roles", [None, {"caller": {"features": {"a": True}}}])
    o = c.call(j.send_hello, roles) if roles is not None else c.call(j.send_hello)
    c.check(o.ok, "a client can send HELLO")
    c.check(len(w.sent) >= 1 and o.value[1] is w.sent[-1], "send_hello gives the encoded HELLO")
    h = w.sent[-1]
    c.check(type(h).__name__ == "Hello", "a client sends HELLO")
    c.check(eq(h.realm, realm), "HELLO names the client's realm")
    if roles is not None:
        c.check(same(h.roles, roles), "HELLO announces the given roles")
    ms = h.authmethods
    want = m if m != "default" else "anonymous"
    c.check(ms is not None and c.f(len, ms) == 1 and eq(ms[0], want), "HELLO names the client's method")
    if m == "default":
        c.reach("default")
        return
    c.check(eq(h.authid, authid), "HELLO names the client's authid")
    got = h.authextra
    n = c.f(len, got) if got is not None else 0
    k = 1 if m == "cryptosign" else 0
    if x == "some":
        c.check(n == 1 + k, "HELLO carries the client's auth extra")
        for key in before:
            c.check(c.f(got.__contains__, key) and same(c.f(got.get, key), before[key]), "HELLO carries the client's auth extra")
    else:
        c.check(n == k, "HELLO carries no other auth extra")
    c.reach("announced " + m)


def ticket(c, codecs):
    """A ticket client answers with its ticket."""
    t = c.str("ticket")
    a = c.w.auth.TicketAuthenticator(c.str("authid"), t)
    codec = c.choice("codec", codecs)
    w = Wire() if codec is None else serializer(c, codec)
    j = c.w.joiner.Joiner(c.str("realm"), w, a)
    c.assume(c.call(j.send_hello).ok)
    ch = build(c, "Challenge", {"authmethod": "ticket", "extra": c.open("extra")})
    if codec is None:
        o = c.call(j.receive, (b"frame", ch))
        c.check(o.ok and type(w.sent[-1]).__name__ == "Authenticate", "a CHALLENGE is answered with AUTHENTICATE")
        m = w.sent[-1]
    else:
        o = c.call(j.receive, c.call(w.serialize, ch).value)
        c.check(o.ok and o.value is not None, "a CHALLENGE is answered with AUTHENTICATE")
        d = c.call(serializer(c, codec).deserialize, o.value)
        c.check(d.ok and type(d.value).__name__ == "Authenticate", "a CHALLENGE is answered with AUTHENTICATE")
        m = d.value
    c.check(eq(m.signature, t), "a ticket client answers with exactly its ticket")
    c.reach("ticket")


HARNESSES = [
    Harness("consulted", consulted, quick={"methods": METHODS + ["none"]}, thorough={"methods": METHODS + ["none", "unknown"]},
            labels=["request " + m for m in METHODS] + ["consulted"],
            bounds="every HELLO of the four methods or none, with up to two methods, any texts, absent, empty or any auth extra"),
    Harness("histories", histories, quick={"n": 2}, thorough={"n": 4}, labels=["request " + m for m in METHODS],
            bounds="every sequence of 2 (thorough 4) messages"),
    Harness("two", two, labels=["two"], bounds="two handshakes at once, any methods"),
    Harness("again", again, quick={"n": 2}, thorough={"n": 3}, labels=["again"],
            bounds="2 (thorough 3) handshakes of one method one after the other with one authenticator"),
    Harness("announced", announced, labels=["announced " + m for m in METHODS] + ["default"],
            bounds="the HELLO of a client of each method, any texts, auth extra absent, empty or with one entry"),
    Harness("ticket", ticket, quick={"codecs": [None] + list(CODECS)}, thorough={"codecs": [None] + list(CODECS)}, labels=["ticket"],
            bounds="any ticket, with each serializer"),
]
ASSUMPTIONS = [
    "HMAC-SHA256 and Ed25519 are ideal: deterministic, without collisions, one signature per key and message",
    "the authenticator only accepts well-formed public keys (32 bytes in hex)",
    "what follows a HELLO refused for its authentication method is unspecified",
]
