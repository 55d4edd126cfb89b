"""Client messages pass through unchanged and refusals have no effect."""
from .broker import message
from .client import ALL, RECEIVES, REPLIES, REQUESTS, SENDS, Client
from .common import Harness, eq, land, lnot, snap
from .m03 import make
from .s01 import CODECS, INT64, TEXTUAL, serializer
from .wire import build, same_messages

PLAIN_SENDS = REQUESTS + ["Goodbye"]


def prepared(c, s, m, cls):
    """Bring the session into a state in which message m of class cls is accepted."""
    if cls in ("Yield", "Error"):
        s.have("registration", 1)
        inv = build(c, "Invocation", {"request_id": m.request_id, "registration_id": s.held[0].ident})
        c.assume(c.call(s.s.receive_message, inv).ok)


def sending(c, nargs, real):
    """Any accepted message is encoded as it is."""
    cls = c.choice("class", SENDS)
    codec = c.choice("codec", list(CODECS)) if real else None
    m, f = make(c, cls, nargs, 0, TEXTUAL if codec in ("json", None) else ["none", "bool", "int", "float", "str", "bytes"], INT64)
    given = build(c, cls, {k: snap(v) for k, v in f.items()})
    if cls == "Error":
        c.assume(eq(m.message_type, 68))
    s = Client(c, "C04", serializer(c, codec) if codec else None)
    if codec:
        c.assume(cls not in ("Yield", "Error"))
    prepared(c, s, m, cls)
    o = c.call(s.s.send_message, m)
    c.check(o.ok, f"{cls} is sent")
    if codec:
        d = c.call(serializer(c, codec).deserialize, o.value)
        c.check(d.ok and same_messages(d.value, given), f"sending returns the encoding of the given {cls}")
    else:
        c.check(c.f(isinstance, o.value, tuple) and o.value[0] == b"frame", "sending returns what the serializer returned")
        c.check(same_messages(o.value[1], given), f"sending encodes the given {cls}")
    c.reach(cls)


def receiving(c, nargs, real):
    """Any accepted message is handed over as it is."""
    cls = c.choice("class", RECEIVES)
    codec = c.choice("codec", list(CODECS)) if real else None
    m, f = make(c, cls, nargs, 0, TEXTUAL, INT64)
    given = build(c, cls, {k: snap(v) for k, v in f.items()})
    s = Client(c, "C04", serializer(c, codec) if codec else None)
    s2 = s.s
    if cls == "Error":
        c.assume(eq(m.message_type, 48))
    if cls in REPLIES:
        kind = {"Error": "Call", "Result": "Call", "Registered": "Register", "Unregistered": "Unregister",
                "Published": "Publish", "Subscribed": "Subscribe", "Unsubscribed": "Unsubscribe"}[cls]
        c.assume(not codec or kind not in ("Unregister", "Unsubscribe"))
        target = None
        if kind in ("Unregister", "Unsubscribe"):
            s.have("registration" if kind == "Unregister" else "subscription", 1)
            target = s.held[0].ident
        q = {"request_id": m.request_id}
        if kind in ("Call", "Register"):
            q["procedure"] = "p"
        elif kind in ("Publish", "Subscribe"):
            q["topic"] = "t"
            q["options"] = {"acknowledge": True} if kind == "Publish" else {}
        else:
            q["registration_id" if kind == "Unregister" else "subscription_id"] = target
        c.assume(c.call(s2.send_message, build(c, kind, q)).ok)
    if cls in ("Invocation", "Event"):
        c.assume(not codec)
        s.have("registration" if cls == "Invocation" else "subscription", 1)
        c.assume(eq(s.held[0].ident, m.registration_id if cls == "Invocation" else m.subscription_id))
    how = c.choice("through", ["receive", "receive_message"])
    if how == "receive":
        data = (b"frame", m) if not codec else c.call(serializer(c, codec).serialize, m).value
        o = c.call(s2.receive, data)
    else:
        o = c.call(s2.receive_message, m)
    c.check(o.ok, f"{cls} is received")
    c.check(same_messages(o.value, given), f"receiving returns the decoded {cls}")
    c.reach(cls)


def unsupported(c, s, classes=None):
    d = c.choice("direction", ["send", "receive"])
    bad = [k for k in ALL if k not in (SENDS if d == "send" else RECEIVES)]
    if d == "send":
        bad.remove("Abort")  # whether a client may send ABORT through its session is not specified
    cls = c.choice("unsupported", bad if classes is None else [k for k in bad if k in classes])
    m = message(c, cls)
    o = c.call(s.s.send_message if d == "send" else s.s.receive_message, m)
    c.check(not o.ok, f"a client does not {d} {cls}")
    c.check(o.raised(ValueError), f"{d} of {cls} is refused with ValueError")
    c.reach("unsupported")


def types(c):
    s = Client(c, "C04")
    if c.choice("used", [False, True]):
        s.have("registration", 1)
        s.send("Call", 0)
    unsupported(c, s)
    s.send("Goodbye")
    s.receive(c.choice("closing", ["Goodbye", "Abort"]))


def refusals(c, calls, holds, sends, receives, n):
    """A session with requests, registrations, subscriptions and invocations refuses something; afterwards it behaves as before."""
    s = Client(c, "C04")
    if holds:
        s.have("registration", 1)
        s.have("subscription", 1)
        s.receive("Invocation")
    for _ in range(calls):
        s.send(c.choice("request", REQUESTS), 0)
    before = len(s.requests), len(s.held), len(s.invocations), [r.outstanding for r in s.requests]
    what = c.choice("refused", ["unsupported", "reply", "invocation", "event", "yield", "error"])
    if what == "unsupported":
        unsupported(c, s, ["Hello", "Cancel", "Subscribed", "Subscribe", "Invocation"])
    elif what == "reply":
        cls = c.choice("reply", REPLIES)
        k = {"Result": "Call", "Registered": "Register", "Unregistered": "Unregister", "Published": "Publish",
             "Subscribed": "Subscribe", "Unsubscribed": "Unsubscribe"}.get(cls)
        i = c.id("refused")
        if cls == "Error":
            t = c.int("refused error for")
            c.assume(lnot(s.owed_error(t, i)))
            f = {"message_type": t, "request_id": i, "details": c.open("details"), "uri": c.str("uri")}
        else:
            c.assume(lnot(s.owed(k, i)))
            f = {"request_id": i}
            for a in {"Registered": ["registration_id"], "Subscribed": ["subscription_id"], "Published": ["publication_id"]}.get(cls, []):
                f[a] = c.id(a)
        refused(c, c.call(s.s.receive_message, build(c, cls, f)), cls)
    elif what == "invocation":
        i = c.id("refused")
        c.assume(lnot(s.holds("Registered", i)))
        refused(c, c.call(s.s.receive_message, build(c, "Invocation", {"request_id": c.id("inv"), "registration_id": i})), "Invocation")
    elif what == "event":
        i = c.id("refused")
        c.assume(lnot(s.holds("Subscribed", i)))
        refused(c, c.call(s.s.receive_message, build(c, "Event", {"subscription_id": i, "publication_id": c.id("pub")})), "Event")
    elif what == "yield":
        i = c.id("refused")
        c.assume(lnot(s.unanswered(i)))
        refused(c, c.call(s.s.send_message, build(c, "Yield", {"request_id": i, "options": c.open("options")})), "Yield")
    else:
        t = c.int("refused error for")
        c.assume(lnot(eq(t, 68)))
        m = build(c, "Error", {"message_type": t, "request_id": c.id("refused"), "details": c.open("details"), "uri": c.str("uri")})
        refused(c, c.call(s.s.send_message, m), "Error")
    c.reach(what)
    for _ in range(n):
        s.step(sends, receives, 0)


def goodbye(c, holds, sends, receives, n):
    """GOODBYE in either direction changes nothing about what is outstanding or held."""
    s = Client(c, "C04")
    for x in c.choice("before", holds):
        if x in ("registration", "subscription"):
            s.have(x, 1)
        elif x == "Invocation":
            s.receive(x)
        else:
            s.send(x, 0)
    if c.choice("direction", ["send", "receive"]) == "send":
        s.send("Goodbye")
    else:
        s.receive("Goodbye")
    for _ in range(n):
        s.step(sends, receives, 0)
    c.reach("goodbye")


def refused(c, o, cls):
    c.check(not o.ok, f"a {cls} that is not due is refused")
    c.check(o.raised(ValueError), f"a {cls} that is not due is refused with ValueError")


HOLD = [["registration", "Invocation"], ["subscription"], ["Call"], ["Register"], ["Publish"], ["Subscribe"],
        ["registration", "Unregister"], ["subscription", "Unsubscribe"]]
LABELS = ["unsupported", "reply", "invocation", "event", "yield", "error"]
HARNESSES = [
    Harness("sending", sending, quick={"nargs": 1, "real": False}, thorough={"nargs": 2, "real": False}, labels=SENDS,
            bounds="every sendable message with any fields, up to 1 (thorough 2) positional and 1 keyword argument"),
    Harness("receiving", receiving, quick={"nargs": 1, "real": False}, thorough={"nargs": 2, "real": False}, labels=RECEIVES,
            bounds="every receivable message with any fields, up to 1 (thorough 2) positional and 1 keyword argument"),
    Harness("sending-real", sending, quick={"nargs": 0, "real": True}, thorough={"nargs": 1, "real": True}, labels=PLAIN_SENDS,
            bounds="requests and GOODBYE through the three real serializers"),
    Harness("receiving-real", receiving, quick={"nargs": 0, "real": True}, thorough={"nargs": 1, "real": True},
            labels=["Result", "Registered", "Published", "Subscribed", "Error", "Goodbye", "Abort"],
            bounds="replies, GOODBYE and ABORT through the three real serializers"),
    Harness("types", types, labels=["unsupported", "sent Goodbye", "received Goodbye", "received Abort"],
            bounds="all message types a client must not send (10) or receive (11)"),
    Harness("refusals", refusals,
            quick={"calls": 1, "holds": False, "sends": ["Yield", "Call"], "receives": REPLIES + ["Invocation", "Event"], "n": 1},
            thorough={"calls": 2, "holds": False, "sends": ["Yield", "Call"], "receives": REPLIES + ["Invocation", "Event"], "n": 1},
            labels=LABELS, bounds="1 (thorough 2) requests of any kinds, any refused message, any other message; any IDs"),
    Harness("refusals-holding", refusals,
            quick={"calls": 0, "holds": True, "sends": ["Yield"], "receives": REPLIES + ["Invocation", "Event"], "n": 1},
            thorough={"calls": 2, "holds": True, "sends": ["Yield", "Error"], "receives": REPLIES + ["Invocation", "Event"], "n": 1},
            labels=LABELS, bounds="the same in a session with a registration, a subscription and an invocation"),
    Harness("refusals-twice", refusals,
            quick={"calls": 1, "holds": False, "sends": [], "receives": ["Registered", "Invocation", "Result"], "n": 2},
            thorough={"calls": 1, "holds": True, "sends": ["Yield", "Unregister"],
                      "receives": ["Registered", "Invocation", "Result", "Error", "Subscribed", "Event"], "n": 2},
            labels=LABELS, bounds="the same with two messages afterwards"),
    Harness("goodbye", goodbye,
            quick={"holds": HOLD, "sends": ["Yield", "Call"], "receives": REPLIES + ["Invocation", "Event"], "n": 1},
            thorough={"holds": HOLD, "sends": ["Yield", "Call", "Error"], "receives": REPLIES + ["Invocation", "Event"], "n": 2},
            labels=["goodbye"],
            bounds="a session with a registration and an invocation, a subscription or a request of any kind; GOODBYE in either "
                   "direction; then 1 (thorough 2) messages of any kind; any IDs"),
]
ASSUMPTIONS = [
    "outstanding requests of one kind have different IDs",
    "UNREGISTERED and UNSUBSCRIBED for something not held is unspecified and left out",
    "whether ABORT can be sent through a client session is unspecified",
]
