"""Contents travel from client to client unchanged, whatever serializers the two use."""
from .common import Harness, KINDS, eq, land, lnot, same, snap, truth
from .s01 import CODECS, INT64, TEXTUAL, serializer
from .wire import build


class End:
    """A client and the router's end of its link."""

    def __init__(self, c, codec, sid, routers):
        self.c = c
        self.codec = codec
        self.sid = sid
        self.s = c.w.session.WAMPSession(serializer(c, codec))
        self.router = serializer(c, codec)
        self.routers = routers
        for r in set(routers.values()):
            o = c.call(r.add_session, c.w.types.SessionDetails(sid, "realm1", "authid", "role"))
            c.check(o.ok, "a session can join")

    def ask(self, f, *a, label):
        o = self.c.call(f, *a)
        self.c.check(o.ok, label)
        self.c.assume(o.ok)
        return o.value

    def send(self, cls, f):
        """Client to router; what the router gives back."""
        m = build(self.c, cls, f)
        data = self.ask(self.s.send_message, m, label=f"a client can send {cls} over {self.codec}")
        m = self.ask(self.router.deserialize, data, label=f"the router can read {cls} over {self.codec}")
        r = self.routers[cls]
        return self.ask(r.receive_publish if cls == "Publish" else r.receive_message, self.sid, m, label=f"the router handles {cls}")

    def get(self, m, cls):
        """Router to client."""
        self.c.check(type(m).__name__ == cls, f"the router answers with {cls}")
        data = self.ask(self.router.serialize, m, label=f"the router can send {cls} over {self.codec}")
        out = self.ask(self.s.receive, data, label=f"a client accepts {cls} over {self.codec}")
        self.c.check(type(out).__name__ == cls, f"{cls} arrives as {cls}")
        return out


def routers(c):
    d, b = c.w.dealer.Dealer(), c.w.broker.Broker()
    return dict({k: d for k in ("Call", "Register", "Yield", "Error")}, **{k: b for k in ("Subscribe", "Publish")})


def contents(c, codecs, nargs, depth):
    ks = TEXTUAL if "json" in codecs else KINDS
    a = c.choice("args", [None] + list(range(nargs + 1)))
    k = c.choice("kwargs", [None, 0, 1])
    return {"args": None if a is None else [c.any("arg", ks, depth, INT64) for _ in range(a)],
            "kwargs": None if k is None else c.mkdict([(c.str("key"), c.any("kwarg", ks, depth, INT64)) for _ in range(k)])}


def arrived(c, m, before, what):
    for a in ("args", "kwargs"):
        v, w = getattr(m, a), before[a]
        empty = w is None or c.f(len, w) == 0
        c.check((v is None or c.f(len, v) == 0) if empty else v is not None and same(v, w), f"the {a} of {what} arrive unchanged")


def frozen(f):
    return {a: snap(f[a]) for a in ("args", "kwargs")}


def pair(c):
    r = routers(c)
    codecs = c.choice("codecs", [(x, y) for x in CODECS for y in CODECS])
    i, j = c.id("first"), c.id("second")
    c.assume(lnot(eq(i, j)))
    return codecs, End(c, codecs[0], i, r), End(c, codecs[1], j, r)


def call(c, nargs, depth, answers):
    codecs, caller, callee = pair(c)
    proc = c.str("procedure")
    reg = c.id("register")
    o = callee.send("Register", {"request_id": reg, "options": {}, "procedure": proc})
    registered = callee.get(o.message, "Registered")
    c.check(eq(registered.request_id, reg), "REGISTERED answers the request")
    side = c.choice("contents of", ["call", "answer"])
    small = {"args": ["a"], "kwargs": None}
    f = contents(c, codecs, nargs, depth) if side == "call" else small
    before = frozen(f)
    how = c.choice("how", answers)
    req = c.id("call")
    o = caller.send("Call", dict(f, request_id=req, procedure=proc,
                                 options=c.mkdict([("receive_progress", True)] if how == "progress" else [])))
    c.check(eq(o.recipient, callee.sid), "the call goes to the callee")
    inv = callee.get(o.message, "Invocation")
    c.check(eq(inv.registration_id, registered.registration_id), "the INVOCATION is for the callee's registration")
    c.check(eq(truth(c.f(inv.details.get, "receive_progress", False)), how == "progress"),
            "the callee learns whether progressive results are wanted")
    arrived(c, inv, before, "a call")
    f = contents(c, codecs, nargs, depth) if side == "answer" else small
    before = frozen(f)
    if how == "error":
        uri = c.str("uri")
        det = c.mkdict([(c.str("detail"), c.any("detail value", TEXTUAL if "json" in codecs else KINDS, 0, INT64))])
        sdet = snap(det)
        o = callee.send("Error", dict(f, message_type=68, request_id=inv.request_id, uri=uri, details=det))
        e = caller.get(o.message, "Error")
        c.check(land(eq(e.uri, uri), same(e.details, sdet)), "the error's URI and details arrive unchanged")
        c.check(eq(e.message_type, 48), "the ERROR is for a CALL")
        what = e
    else:
        o = callee.send("Yield", dict(f, request_id=inv.request_id,
                                      options=c.mkdict([("progress", True)] if how == "progress" else [])))
        what = caller.get(o.message, "Result")
        c.check(eq(truth(c.f(what.details.get, "progress", False)), how == "progress"),
                "a RESULT is progressive exactly when the YIELD is")
    c.check(eq(o.recipient, caller.sid), "the answer goes to the caller")
    c.check(eq(what.request_id, req), "the answer says which call it answers")
    arrived(c, what, before, "an answer")
    c.reach(how)
    c.reach(" to ".join(codecs))
    if how == "progress":
        o = callee.send("Yield", {"request_id": inv.request_id, "options": {}})
        last = caller.get(o.message, "Result")
        c.check(eq(last.request_id, req), "the final answer says which call it answers")


def event(c, nargs, depth):
    codecs, publisher, subscriber = pair(c)
    topic = c.str("topic")
    ids = []
    for e in (subscriber, publisher):
        req = c.id("subscribe")
        o = e.send("Subscribe", {"request_id": req, "options": {}, "topic": topic})
        m = e.get(o.message, "Subscribed")
        c.check(eq(m.request_id, req), "SUBSCRIBED answers the request")
        ids.append(m.subscription_id)
    f = contents(c, codecs, nargs, depth)
    before = frozen(f)
    req = c.id("publish")
    p = publisher.send("Publish", dict(f, request_id=req, topic=topic, options=c.mkdict([("acknowledge", True)])))
    c.check(p.event is not None and p.ack is not None, "a publication to a subscribed topic makes an EVENT and is acknowledged")
    ack = publisher.get(p.ack.message, "Published")
    c.check(eq(ack.request_id, req), "PUBLISHED answers the request")
    for e, i in ((subscriber, ids[0]), (publisher, ids[1])):
        m = e.get(p.event, "Event")
        c.check(eq(m.subscription_id, i), "the EVENT is for the subscription")
        c.check(eq(m.publication_id, ack.publication_id), "the EVENT and the acknowledgement speak of the same publication")
        arrived(c, m, before, "a publication")
    c.reach(" to ".join(codecs))


ALL = [f"{x} to {y}" for x in CODECS for y in CODECS]
HARNESSES = [
    Harness("call", call, quick={"nargs": 2, "depth": 0, "answers": ["result", "progress", "error"]},
            thorough={"nargs": 2, "depth": 1, "answers": ["result", "progress", "error"]},
            labels=ALL + ["result", "progress", "error"],
            bounds="every pair of serializers; a call answered with a result, a progressive and a final result, or an error; any "
                   "procedure, IDs and URI; up to 2 (thorough nested) positional and 1 keyword argument of any kind"),
    Harness("event", event, quick={"nargs": 2, "depth": 0}, thorough={"nargs": 2, "depth": 1}, labels=ALL,
            bounds="every pair of serializers; a publication to two subscribers, one of them the publisher; contents as above"),
]
ASSUMPTIONS = [
    "bytes travel only where neither serializer is JSON; integers within 64 bits; text dictionary keys; absent and empty arguments "
    "count as equal",
    "json, cbor2 and msgpack are replaced by their contract (see S01)",
]
