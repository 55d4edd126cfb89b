"""A message that cannot be encoded or decoded leaves no trace in a client session."""
from .client import RECEIVES, REPLIES, REQUESTS, SENDS, Client, Wire
from .common import Harness, eq, lnot
from .s01 import CODECS, serializer
from .wire import build


class Broken(Exception):
    pass


class Flaky(Wire):
    """A serializer that fails when told to."""

    fails = False

    def serialize(self, message):
        if self.fails:
            raise Broken("cannot encode")
        return super().serialize(message)

    def deserialize(self, data):
        if self.fails:
            raise Broken("cannot decode")
        return super().deserialize(data)


def fail(c, s, how, sends):
    """Something that cannot be encoded or decoded; the ID it was about."""
    s.wire.fails = True
    if how == "decode":
        o = c.call(s.s.receive, (b"frame", build(c, "Result", {"request_id": s.requests[0].ident if s.requests else 1, "details": {}})))
        c.check(not o.ok, "what cannot be decoded is not received")
        c.reach("cannot receive")
    else:
        s.send(c.choice("failing", sends))
    s.wire.fails = False


def histories(c, prefix, sends, then, receives, n):
    """A session in some state, a failure, and what it accepts and sends afterwards."""
    s = Client(c, "C05", Flaky())
    for x in c.choice("before", prefix):
        if x in ("registration", "subscription"):
            s.have(x, 1)
        elif x == "Invocation":
            s.receive(x)
        else:
            s.send(x, 0)
    fail(c, s, c.choice("fails", ["encode", "decode"]), sends)
    for _ in range(n):
        s.step(then, receives, 0)


def answered(c):
    """An answer that cannot be encoded: the invocation can still be answered, once."""
    s = Client(c, "C05", Flaky())
    s.have("registration", 1)
    s.receive("Invocation")
    fail(c, s, "encode", ["Yield", "Error"])
    for _ in range(2):
        s.send(c.choice("answer", ["Yield", "Error"]))
    c.reach("answered")


def again(c, kind):
    """A request that cannot be encoded: its ID is free, and no reply is owed."""
    s = Client(c, "C05", Flaky())
    if kind == "Unregister":
        s.have("registration", 1)
    if kind == "Unsubscribe":
        s.have("subscription", 1)
    fail(c, s, "encode", [kind])
    rep = [r for r in REPLIES if r != "Error"]
    if c.choice("then", ["reply", "request"]) == "request":
        s.send(kind, 0)
    s.receive(c.choice("reply", rep + ["Error"]))
    s.receive("Invocation")
    s.receive("Event")
    c.reach("again")


def real(c, codecs):
    """Arguments that the real serializers cannot encode."""
    codec = c.choice("codec", codecs)
    w = serializer(c, codec)
    s = c.w.session.WAMPSession(w)
    i = c.id("request")
    cls, reply = c.choice("request", [("Call", "Result"), ("Publish", "Published")])
    f = {"request_id": i, "options": {"acknowledge": True} if cls == "Publish" else {}}
    f["procedure" if cls == "Call" else "topic"] = "name"
    o = c.call(s.send_message, build(c, cls, dict(f, args=[object()])))
    c.check(not o.ok, f"a {cls} that cannot be encoded is not sent")
    r = {"request_id": i, **({"details": {}} if reply == "Result" else {"publication_id": 1})}
    c.check(c.call(s.receive_message, build(c, reply, r)).raised(ValueError), f"no {reply} is owed for what was not sent")
    c.check(c.call(s.send_message, build(c, cls, f)).ok, "what can be encoded is sent")
    c.check(c.call(s.receive_message, build(c, reply, r)).ok, f"{reply} is accepted when due")
    c.reach(codec)


def joining(c, codecs):
    """A HELLO that cannot be encoded, or a frame that cannot be decoded, while a client joins."""
    w = c.choice("codec", ["stub"] + codecs)
    wire = Flaky() if w == "stub" else serializer(c, w)

    class Authenticator(c.w.auth.IClientAuthenticator):
        def authenticate(self, challenge):
            return build(c, "Authenticate", {"signature": "signature", "extra": {}})

    a = Authenticator("stub", c.str("authid"), {"pubkey": object()} if w != "stub" else {})
    j = c.w.joiner.Joiner(c.str("realm"), wire, a)
    welcome = build(c, "Welcome", {"session_id": c.id("session"), "roles": {"broker": {}}, "authid": c.str("authid given"),
                                   "authrole": c.str("authrole"), "authmethod": "stub", "authextra": {}})
    challenge = build(c, "Challenge", {"authmethod": "stub", "extra": {}})
    sent = False
    if w == "stub":
        sent = c.choice("HELLO sent", [False, True])
        if sent:
            c.check(c.call(j.send_hello).ok, "HELLO can be sent")
        wire.fails = True
    if sent:
        o = c.call(j.receive, (b"frame", c.choice("garbled", [welcome, challenge])))
        c.check(not o.ok, "what cannot be decoded is not received")
    else:
        c.check(not c.call(j.send_hello).ok, "a HELLO that cannot be encoded is not sent")
    if w == "stub":
        wire.fails = False
    else:
        a.auth_extra.clear()
    c.check(not c.call(j.get_session_details).ok, "no session details before WELCOME")
    if not sent:
        o = c.call(j.receive_message, c.choice("unasked", [welcome, challenge]))
        c.check(o.raised(ValueError), "a client that could not send HELLO has not sent it")
        c.check(not c.call(j.get_session_details).ok, "no session details before WELCOME")
        c.check(c.call(j.send_hello).ok, "HELLO can be sent")
    if c.choice("challenged", [False, True]):
        c.check(c.call(j.receive_message, challenge).ok, "a CHALLENGE after HELLO is accepted")
    c.check(c.call(j.receive_message, welcome).ok, "an awaited WELCOME is accepted")
    d = c.call(j.get_session_details)
    c.check(d.ok and eq(d.value.session_id, welcome.session_id), "session details name WELCOME's session ID")
    c.reach(w)


HOLD = [["registration", "Invocation"], ["subscription"], ["Call"], ["Register"], ["Publish"]]
HARNESSES = [
    Harness("histories", histories,
            quick={"prefix": [[]] + HOLD, "sends": SENDS, "then": ["Yield"], "receives": REPLIES + ["Invocation", "Event"], "n": 1},
            thorough={"prefix": [[]] + HOLD + [["registration", "Unregister"], ["subscription", "Unsubscribe"]], "sends": SENDS,
                      "then": ["Yield", "Call", "Error"], "receives": REPLIES + ["Invocation", "Event"], "n": 2},
            labels=["cannot receive"] + ["cannot send " + x for x in SENDS],
            bounds="a session with nothing, with a registration and an invocation, with a subscription or with a request outstanding; "
                   "any message that cannot be encoded or decoded, then 1 (thorough 2) messages of any kind; any IDs"),
    Harness("answered", answered, labels=["answered"], bounds="an answer that cannot be encoded, then two answers of any IDs"),
    *[Harness("again-" + k, again, quick={"kind": k}, labels=["again"],
              bounds=f"a {k} that cannot be encoded, perhaps another one, then any reply, an INVOCATION and an EVENT; any IDs")
      for k in REQUESTS],
    Harness("real", real, quick={"codecs": list(CODECS)}, labels=list(CODECS),
            bounds="an argument none of the three serializers can encode"),
    Harness("joining", joining, quick={"codecs": list(CODECS)}, labels=["stub"] + list(CODECS),
            bounds="a HELLO that cannot be encoded or a frame that cannot be decoded, then a WELCOME or CHALLENGE, then the handshake"),
]
ASSUMPTIONS = [
    "a serializer fails by raising an exception; the session passes it on or raises ValueError",
    "outstanding requests of one kind have different IDs",
]
