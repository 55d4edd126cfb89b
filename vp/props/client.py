"""Histories of a client session's messages against a reference model (shared by C01 to C05).

All IDs are symbolic.  The model keeps one record per request sent, registration or subscription confirmed and invocation
received, with a formula for whether it is outstanding, held or unanswered; each property module asserts only its own facts
(`focus`).  After a refusal that only another property speaks about the model simply follows the session."""
from .broker import arguments
from .common import eq, iff, implies, kind, land, lnot, lor, same, snap, truth
from .wire import LAYOUT, PLAIN, build, same_messages

CODE = {"Call": 48, "Register": 64, "Unregister": 66, "Publish": 16, "Subscribe": 32, "Unsubscribe": 34}
REPLY = {"Result": "Call", "Registered": "Register", "Unregistered": "Unregister", "Published": "Publish",
         "Subscribed": "Subscribe", "Unsubscribed": "Unsubscribe"}
REQUESTS = list(CODE)
REPLIES = list(REPLY) + ["Error"]
SENDS = REQUESTS + ["Yield", "Error", "Goodbye"]
RECEIVES = REPLIES + ["Invocation", "Event", "Goodbye", "Abort"]
ALL = ["Hello", "Welcome"] + PLAIN


class Wire:
    """A serializer that hands over the message itself."""

    def __init__(self):
        self.sent = []

    def serialize(self, message):
        self.sent.append(message)
        return (b"frame", message)

    def deserialize(self, data):
        return data[1]


class Request:
    def __init__(self, kind_, ident, target=None):
        self.kind = kind_
        self.ident = ident
        self.target = target
        self.outstanding = True


class Held:
    def __init__(self, kind_, ident):
        self.kind = kind_
        self.ident = ident
        self.live = True


class Client:
    def __init__(self, c, focus, serializer=None):
        self.c = c
        self.focus = focus
        self.wire = serializer or Wire()
        self.s = c.w.session.WAMPSession(self.wire)
        self.requests = []
        self.held = []
        self.invocations = []

    def chk(self, props, cond, label):
        if self.focus in props or self.focus == "C05" and props:
            self.c.check(cond, label)

    # -- the model
    def owed(self, kind_, ident):
        return lor(*[land(r.outstanding, eq(r.ident, ident)) for r in self.requests if r.kind == kind_])

    def owed_error(self, t, ident):
        return lor(*[land(eq(t, v), self.owed(k, ident)) for k, v in CODE.items()])

    def settle(self, kind_, ident, when=True):
        for r in self.requests:
            if r.kind == kind_:
                r.outstanding = land(r.outstanding, lnot(land(when, eq(r.ident, ident))))

    def holds(self, kind_, ident):
        return lor(*[land(h.live, eq(h.ident, ident)) for h in self.held if h.kind == kind_])

    def unanswered(self, ident):
        return lor(*[land(h.live, eq(h.ident, ident)) for h in self.invocations])

    # -- messages
    def args(self, cls):
        return arguments(self.c) if LAYOUT[cls][2] else {}

    def progress(self, flag):
        """A progress option: absent, true or false."""
        c = self.c
        if flag is not None:
            return ([("progress", True)] if flag else []), bool(flag)
        p = c.bool("progress")
        if c.choice("flag", ["given when true", "given"]) == "given":
            return [("progress", p)], p
        return [("progress", True, p)], p

    def out(self, cls, ok, msg):
        """Send: the outcome must be as the model says."""
        c = self.c
        o = c.call(self.s.send_message, msg)
        props = {"Yield": ("C03", "C04"), "Error": ("C03", "C04"), "Goodbye": ("C04",)}.get(cls, ("C04",))
        if getattr(self.wire, "fails", False):
            self.chk(("C05",), not o.ok, f"a {cls} that cannot be encoded is not sent")
            c.reach("cannot send " + cls)
            return False
        if o.ok:
            self.chk(props if ok is not None else (), True if ok is None else ok, f"{cls} is only sent when allowed")
            self.chk(("C04",), isinstance(o.value, tuple) and o.value[0] == b"frame" and o.value[1] is msg or
                     same_frame(o.value, msg), "sending returns the encoding of the given message")
            c.reach("sent " + cls)
            return True
        self.chk(props if ok is not None else (), lnot(ok) if ok is not None else True, f"{cls} is sent when allowed")
        self.chk(("C01",) if cls in CODE else (), False, f"the request {cls} can be sent")
        self.chk(props, o.raised(ValueError), f"{cls} is refused with ValueError")
        c.reach("refused " + cls)
        return False

    def into(self, cls, props, ok, msg):
        """Receive: the outcome must be as the model says."""
        c = self.c
        if c.choice("through", ["receive_message"] if self.focus != "C04" else ["receive_message", "receive"]) == "receive":
            o = c.call(self.s.receive, (b"frame", msg))
        else:
            o = c.call(self.s.receive_message, msg)
        props = props + ("C04",)
        if o.ok:
            if ok is not None:
                self.chk(props, ok, f"{cls} is only accepted when due")
            self.chk(("C04",), o.value is msg or same_messages(o.value, msg), "receiving returns the decoded message")
            c.reach("received " + cls)
            return True
        if ok is not None:
            self.chk(props, lnot(ok), f"{cls} is accepted when due")
        self.chk(props, o.raised(ValueError), f"{cls} is refused with ValueError")
        c.reach("refused " + cls)
        return False

    def send(self, cls, progress=None, ident=None):
        c = self.c
        if cls == "Goodbye":
            return self.out(cls, True, build(c, cls, dict(self.args(cls), details=c.open("details"), reason=c.str("reason"))))
        req = c.id("sent") if ident is None else ident
        if cls == "Yield":
            pairs, p = self.progress(progress)
            ok = self.unanswered(req)
            if self.out(cls, ok, build(c, cls, dict(arguments(c), request_id=req, options=c.open("options", pairs, ["progress"])))):
                for h in self.invocations:
                    h.live = land(h.live, lor(p, lnot(eq(h.ident, req))))
            return
        if cls == "Error":
            t = c.int("error for")
            m = build(c, cls, dict(arguments(c), message_type=t, request_id=req, details=c.open("details"), uri=c.str("uri")))
            known = self.unanswered(req)
            good = eq(t, 68)
            if good:  # an error for an invocation that is not to be answered is unspecified
                ok = True if known else None
                if self.out(cls, ok, m):
                    for h in self.invocations:
                        h.live = land(h.live, lnot(eq(h.ident, req)))
            else:
                self.out(cls, False, m)
            return
        f = dict(self.args(cls), request_id=req)
        target = None
        if cls in ("Call", "Register"):
            f["procedure"] = c.str("procedure")
        if cls in ("Publish", "Subscribe"):
            f["topic"] = c.str("topic")
        if cls == "Unregister":
            target = f["registration_id"] = c.id("target")
        if cls == "Unsubscribe":
            target = f["subscription_id"] = c.id("target")
        if target is None:
            pairs, owed = [], True
            if cls == "Publish":
                owed = c.bool("acknowledge")
                pairs = [("acknowledge", owed)] if c.choice("ack", [True, False]) else [("acknowledge", True, owed)]
            f["options"] = c.open("options", pairs, ["acknowledge"])
        if cls != "Call":  # IDs of outstanding requests of one kind differ (parts of a progressive call aside)
            c.assume(lnot(self.owed(cls, req)))
        if self.out(cls, True, build(c, cls, f)):
            r = Request(cls, req, target)
            if cls == "Publish":
                r.outstanding = owed
            self.requests.append(r)
            return r

    def receive(self, cls, progress=None, ident=None):
        c = self.c
        if cls in ("Goodbye", "Abort"):
            return self.into(cls, (), True, build(c, cls, dict(self.args(cls), details=c.open("details"), reason=c.str("reason"))))
        req = c.id("received") if ident is None else ident
        if cls == "Result":
            pairs, p = self.progress(progress)
            if self.into(cls, ("C01",), self.owed("Call", req), build(c, cls, dict(arguments(c), request_id=req, details=c.open("details", pairs, ["progress"])))):
                self.settle("Call", req, lnot(p))
        elif cls == "Published":
            m = build(c, cls, {"request_id": req, "publication_id": c.id("publication")})
            if self.into(cls, ("C01",), self.owed("Publish", req), m):
                self.settle("Publish", req)
        elif cls in ("Registered", "Subscribed"):
            a = "registration_id" if cls == "Registered" else "subscription_id"
            i = c.id("confirmed")
            if self.into(cls, ("C01",), self.owed(REPLY[cls], req), build(c, cls, {"request_id": req, a: i})):
                self.settle(REPLY[cls], req)
                self.held.append(Held(cls, i))
        elif cls in ("Unregistered", "Unsubscribed"):
            k = REPLY[cls]
            what = "Registered" if cls == "Unregistered" else "Subscribed"
            for r in self.requests:  # ending what is not held is unspecified
                if r.kind == k:
                    c.assume(implies(land(r.outstanding, eq(r.ident, req)), self.holds(what, r.target)))
            if self.into(cls, ("C01",), self.owed(k, req), build(c, cls, {"request_id": req})):
                for r in self.requests:
                    if r.kind == k:
                        hit = land(r.outstanding, eq(r.ident, req))
                        for h in self.held:
                            if h.kind == what:
                                h.live = land(h.live, lnot(land(hit, eq(h.ident, r.target))))
                self.settle(k, req)
        elif cls == "Error":
            t = c.int("error for")
            m = build(c, cls, dict(arguments(c), message_type=t, request_id=req, details=c.open("details"), uri=c.str("uri")))
            ok = self.owed_error(t, req)
            if self.into(cls, ("C01",), ok, m):
                for k, v in CODE.items():
                    self.settle(k, req, eq(t, v))
        elif cls == "Invocation":
            i = c.id("registration")
            m = build(c, cls, dict(arguments(c), request_id=req, registration_id=i, details=c.open("details")))
            if self.into(cls, ("C02",), self.holds("Registered", i), m):
                self.invocations.append(Held("Invocation", req))
        elif cls == "Event":
            i = c.id("subscription")
            m = build(c, cls, dict(arguments(c), subscription_id=i, publication_id=c.id("publication"), details=c.open("details")))
            self.into(cls, ("C02",), self.holds("Subscribed", i), m)
        else:
            raise AssertionError(cls)

    def have(self, what, n):
        """Confirmed registrations or subscriptions with any ids."""
        req, rep = ("Register", "Registered") if what == "registration" else ("Subscribe", "Subscribed")
        for _ in range(n):
            r = self.send(req)
            self.c.assume(r is not None)
            k = len(self.held)
            self.receive(rep, ident=r.ident)
            self.c.assume(len(self.held) == k + 1)

    def step(self, sends, receives, progress=None):
        c = self.c
        ops = [("send", x) for x in sends] + [("receive", x) for x in receives]
        d, cls = c.choice("op", ops)
        if d == "send":
            self.send(cls, progress)
        else:
            self.receive(cls, progress)
        return d + " " + cls


def two_sessions(c, focus, prefix, messages, n):
    """Two sessions at once: each answers only for its own history."""
    a, b = Client(c, focus), Client(c, focus)
    for what in prefix:
        if what in ("registration", "subscription"):
            a.have(what, 1)
        elif what in RECEIVES:
            a.receive(what)
        else:
            a.send(what)
    for _ in range(n):
        s = c.choice("session", [a, b])
        cls = c.choice("message", messages)
        if cls in REQUESTS or cls == "Yield":
            s.send(cls, 0 if cls != "Yield" else None)
        else:
            s.receive(cls)
    c.reach("two sessions")


def same_frame(v, msg):
    try:
        return v[0] == b"frame" and same_messages(v[1], msg)
    except (TypeError, IndexError, KeyError):
        return False
