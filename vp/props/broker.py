"""Histories of broker operations against a reference model (shared by B01 to B04).

Sessions, topics, request and subscription IDs are symbolic.  The model keeps, per accepted SUBSCRIBE, one record of who
got which ID for which topic and a formula saying whether it still holds, and follows what the broker answered; each
property module asserts only its own facts (`focus`)."""
from .common import ID_MAX, eq, iff, implies, kind, land, lnot, lor, same, snap, truth
from .wire import PLAIN, build

OTHERS = [k for k in ["Hello", "Welcome"] + PLAIN if k not in ("Subscribe", "Unsubscribe", "Publish")]


def message(c, cls):
    """A message of class cls with arbitrary ids and texts."""
    from .wire import LAYOUT

    if cls == "Hello":
        return build(c, cls, {"realm": c.str("realm"), "roles": {"caller": {}}})
    if cls == "Welcome":
        return build(c, cls, {"session_id": c.id("session"), "roles": {"broker": {}}})
    f = {}
    for a, k in LAYOUT[cls][1]:
        f[a] = {"id": c.id, "int": c.int, "str": c.str, "dict": c.open}[k](a)
    if LAYOUT[cls][2]:
        f.update(arguments(c))
    return build(c, cls, f)


def arguments(c):
    """Arguments that are decided when the code looks at them."""
    return {"args": c.lazy("args", "list"), "kwargs": c.lazy("kwargs", "dict")}


def carried(c, v, given):
    """Are arguments v the given ones (absent and empty ones count as equal)?  A formula."""
    if v is given:
        return True
    none = kind(given, "none")
    empty = v is None or (kind(v, "list", "dict") is True and eq(c.f(len, v), 0))
    return lor(land(none, empty), land(lnot(none), v is not None and same(v, given)))


class Record:
    """One accepted SUBSCRIBE."""

    def __init__(self, session, topic, ident):
        self.session = session
        self.topic = topic
        self.ident = ident
        self.live = True


class Session:
    def __init__(self, sid, details):
        self.sid = sid
        self.details = details
        self.attached = True


class Broker:
    def __init__(self, c, focus):
        self.c = c
        self.focus = focus
        self.b = c.w.broker.Broker()
        self.sessions = []
        self.records = []
        self.unsubscribed = False
        self.publications = []

    def chk(self, prop, cond, label):
        if prop == self.focus:
            self.c.check(cond, label)

    def ended(self):
        """An operation did not go as the property under check expects of another one: nothing more to say."""
        self.c.assume(False)

    # -- the model
    def attached(self, sid):
        return lor(*[eq(s.sid, sid) for s in self.sessions if s.attached])

    def holds(self, sid, ident):
        return lor(*[land(r.live, eq(r.session, sid), eq(r.ident, ident)) for r in self.records])

    def subscribed(self, topic):
        return lor(*[land(r.live, eq(r.topic, topic)) for r in self.records])

    def present(self):
        return [s for s in self.sessions if s.attached]

    def stranger(self):
        """A session id that is not attached (it may have been before)."""
        sid = self.c.id("stranger")
        self.c.assume(lnot(self.attached(sid)))
        return sid

    # -- operations
    def details(self, sid):
        return self.c.w.types.SessionDetails(sid, self.c.str("realm"), self.c.str("authid"), self.c.str("authrole"))

    def join(self):
        sid = self.c.id("session")
        self.c.assume(lnot(self.attached(sid)))
        details = self.details(sid)
        o = self.c.call(self.b.add_session, details)
        self.chk("B01", o.ok, "a new session can join")
        if not o.ok:
            self.ended()
        s = Session(sid, details)
        self.sessions.append(s)
        return s

    def leave(self, s):
        o = self.c.call(self.b.remove_session, s.sid)
        self.chk("B01", o.ok, "an attached session can leave")
        if not o.ok:
            self.ended()
        self.drop(s)

    def drop(self, s):
        s.attached = False
        for r in self.records:
            r.live = land(r.live, lnot(eq(r.session, s.sid)))

    def subscribe(self, sid):
        c = self.c
        req, topic = c.id("request"), c.str("topic")
        m = build(c, "Subscribe", {"request_id": req, "options": c.open("options"), "topic": topic})
        o = c.call(self.b.receive_message, sid, m)
        self.chk("B02", o.ok, "a SUBSCRIBE of an attached session is accepted")
        if not o.ok:
            return None
        r = o.value
        self.chk("B02", type(r.message).__name__ == "Subscribed", "SUBSCRIBE is answered with SUBSCRIBED")
        if type(r.message).__name__ != "Subscribed":
            self.ended()
        self.chk("B02", eq(r.recipient, sid), "SUBSCRIBED goes to the requester")
        self.chk("B02", eq(r.message.request_id, req), "SUBSCRIBED carries the request ID")
        ident = r.message.subscription_id
        for x in self.records:
            self.chk("B02", implies(land(x.live, eq(x.topic, topic)), eq(x.ident, ident)),
                     "all holders of a topic get the same subscription ID")
            self.chk("B02", implies(land(x.live, lnot(eq(x.topic, topic))), lnot(eq(x.ident, ident))),
                     "topics with live subscriptions have different subscription IDs")
        self.records.append(Record(sid, topic, ident))
        return self.records[-1]

    def unsubscribe(self, sid, ident=None):
        """UNSUBSCRIBE by an attached session with an ID it holds."""
        c = self.c
        req = c.id("request")
        if ident is None:
            ident = c.id("subscription")
            c.assume(self.holds(sid, ident))
        m = build(c, "Unsubscribe", {"request_id": req, "subscription_id": ident})
        o = c.call(self.b.receive_message, sid, m)
        self.chk("B02", o.ok, "an UNSUBSCRIBE of a held subscription is accepted")
        if not o.ok:
            return
        r = o.value
        self.chk("B02", type(r.message).__name__ == "Unsubscribed", "UNSUBSCRIBE is answered with UNSUBSCRIBED")
        if type(r.message).__name__ != "Unsubscribed":
            self.ended()
        self.chk("B02", eq(r.recipient, sid), "UNSUBSCRIBED goes to the requester")
        self.chk("B02", eq(r.message.request_id, req), "UNSUBSCRIBED carries the request ID")
        self.unsubscribed = True
        for x in self.records:
            x.live = land(x.live, lnot(land(eq(x.session, sid), eq(x.ident, ident))))

    def publish(self, sid, topic=None, full=False, ack=False):
        c = self.c
        req = c.id("request")
        topic = c.str("topic") if topic is None else topic
        f = {"request_id": req, "topic": topic}
        args = kwargs = None
        if full:
            a = c.choice("args", [None, 0, 2])
            args = None if a is None else [c.any("arg", depth=0) for _ in range(a)]
            k = c.choice("kwargs", [None, 0, 1])
            kwargs = None if k is None else c.mkdict([(c.str("key"), c.any("kwarg", depth=0)) for _ in range(k)])
            f["args"], f["kwargs"] = args, kwargs
        else:
            f.update(arguments(c))
            args, kwargs = f["args"], f["kwargs"]
        pairs = []
        if ack:
            pairs.append(("acknowledge", True))
        elif full and c.choice("acknowledge", [False, True]):
            ack = c.bool("acknowledge")
            pairs.append(("acknowledge", ack))
        if full and c.choice("other option", [False, True]):
            k = c.str("option")
            c.assume(lnot(eq(k, "acknowledge")))
            pairs.append((k, c.any("option value", depth=0)))
        f["options"] = c.mkdict(pairs) if full else c.open("options", pairs, ["acknowledge"])
        before = snap(args), snap(kwargs)
        o = c.call(self.b.receive_publish, sid, build(c, "Publish", f))
        for p in ("B01", "B03"):
            self.chk(p, o.ok, "a PUBLISH of an attached session is accepted")
        if not o.ok:
            return
        p = o.value
        self.delivered(topic, p)
        ev = p.event
        if ev is not None and self.focus == "B03":
            c.check(type(ev).__name__ == "Event", "the publication is delivered as EVENT")
            c.check(carried(c, ev.args, before[0]), "the event carries the positional arguments")
            c.check(carried(c, ev.kwargs, before[1]), "the event carries the keyword arguments")
            c.reach("event")
        if p.ack is None:
            self.chk("B03", lnot(ack), "a publication that asks for acknowledgement is acknowledged")
        else:
            self.chk("B03", ack, "PUBLISHED is only sent when asked for")
            if self.focus == "B03":
                c.check(type(p.ack.message).__name__ == "Published", "the acknowledgement is PUBLISHED")
                c.check(eq(p.ack.recipient, sid), "PUBLISHED goes to the publisher")
                c.check(eq(p.ack.message.request_id, req), "PUBLISHED carries the request ID")
                if ev is not None:
                    c.check(eq(p.ack.message.publication_id, ev.publication_id),
                            "PUBLISHED and EVENT carry the same publication ID")
                c.reach("acknowledged")
        pid = ev.publication_id if ev is not None else p.ack.message.publication_id if p.ack is not None else None
        if pid is not None:
            for x in self.publications:
                self.chk("B03", lnot(eq(x, pid)), "no two publications share a publication ID")
            self.publications.append(pid)

    def delivered(self, topic, p):
        """The publication reaches exactly the current subscribers."""
        c = self.c
        to = p.recipients
        props = {"B01": "", "B04": "after the refused request ", "B02": "after an UNSUBSCRIBE "}
        if self.focus == "B02" and not self.unsubscribed:
            props.pop("B02")
        n = c.f(len, to) if to is not None else 0
        if self.focus in props:
            pre = props[self.focus]
            if p.event is None or n == 0:
                c.check(lnot(self.subscribed(topic)), pre + "a topic with subscribers is delivered to")
                c.reach("nobody")
                return
            for i in range(n):
                c.check(lor(*[land(r.live, eq(r.topic, topic), eq(r.session, to[i])) for r in self.records]),
                        pre + "only current subscribers of the topic receive its events")
                for j in range(i):
                    c.check(lnot(eq(to[i], to[j])), pre + "each subscriber is listed once")
            for r in self.records:
                c.check(implies(land(r.live, eq(r.topic, topic)), lor(*[eq(x, r.session) for x in to])),
                        pre + "every current subscriber of the topic receives its events")
            c.reach("delivered")
        if p.event is not None and n:
            for r in self.records:
                self.chk("B02", implies(land(r.live, eq(r.topic, topic)), eq(p.event.subscription_id, r.ident)),
                         "events carry the subscription ID their recipients were given")

    def check_subscribed(self, topic):
        o = self.c.call(self.b.has_subscription, topic)
        for p in ("B01", "B04"):
            self.chk(p, o.ok, "the broker reports whether a topic is subscribed")
        if o.ok:
            for p in ("B01", "B04"):
                self.chk(p, iff(truth(o.value), self.subscribed(topic)),
                         "the broker reports a topic as subscribed exactly when a session holds it")

    def observe(self):
        """Publish to any topic and look who gets it."""
        c = self.c
        topic = c.str("observed topic")
        self.check_subscribed(topic)
        here = self.present()
        s = here[0] if here else self.join()
        self.publish(s.sid, topic)

    # -- histories
    def step(self, ops, most):
        """One operation of a session, which joins first if it is a new one."""
        c = self.c
        here = self.present()
        op = c.choice("op", [o for o in ops if o in ("subscribe", "publish") or here])
        if op == "leave":
            self.leave(c.choice("who", here))
        elif op == "unsubscribe":
            self.unsubscribe(c.choice("who", here).sid)
        elif op == "publish":
            self.publish(c.choice("who", here).sid if here else self.join().sid)
        else:
            s = c.choice("who", here + ([None] if len(self.sessions) < most else []))
            if s is None:
                s = self.join()
            self.subscribe(s.sid)
        return op


def history(c, focus, n, most, ops):
    b = Broker(c, focus)
    b.join()
    for _ in range(c.choice("length", list(range(1, n + 1)))):
        c.reach(b.step(ops, most))
    return b


def apart(c, focus, n, ops):
    """Two brokers in one process; operations on either; the second one is looked at."""
    bs = [Broker(c, focus), Broker(c, focus)]
    for b in bs:
        b.join()
    for _ in range(n):
        bs[c.choice("which", [0, 1])].step(ops, 1)
    c.reach("apart")
    return bs[1]
