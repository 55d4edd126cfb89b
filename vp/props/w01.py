"""Client sessions and a router, joined by ordered links, stay in step."""
from .broker import arguments, carried
from .client import Wire
from .common import Harness, eq, land, lnot, snap, truth
from .wire import build

DEALER = ("Call", "Register", "Unregister", "Yield", "Error")
REPLY = {"Register": "Registered", "Unregister": "Unregistered", "Subscribe": "Subscribed", "Unsubscribe": "Unsubscribed",
         "Publish": "Published", "Call": "Result"}
RPC = ["Register", "Unregister", "Call", "answer"]
PUBSUB = ["Subscribe", "Unsubscribe", "Publish"]


class Request:
    def __init__(self, by, kind_, ident, target=None):
        self.by = by
        self.kind = kind_
        self.ident = ident
        self.target = target
        self.expects = True
        self.answers = 0
        self.callee = None


class Peer:
    """A client: its session, what it asked for and holds, and what is on the way to it."""

    def __init__(self, c, sid):
        self.sid = sid
        self.s = c.w.session.WAMPSession(Wire())
        self.inbox = []
        self.here = True
        self.requests = []
        self.held = {"Registered": [], "Subscribed": []}
        self.invocations = []


class Net:
    def __init__(self, c, n):
        self.c = c
        self.dealer = c.w.dealer.Dealer()
        self.broker = c.w.broker.Broker()
        self.peers = []
        for _ in range(n):
            self.join()

    def join(self):
        c = self.c
        sid = c.id("session")
        for p in self.peers:
            c.assume(lnot(eq(p.sid, sid)))
        d = c.w.types.SessionDetails(sid, "realm1", "authid", "role")
        for r in (self.dealer, self.broker):
            o = c.call(r.add_session, d)
            c.check(o.ok, "a session can join the router")
            c.assume(o.ok)
        self.peers.append(Peer(c, sid))

    def leave(self, p):
        c = self.c
        for r in (self.dealer, self.broker):
            o = c.call(r.remove_session, p.sid)
            c.check(o.ok, "a session can leave the router")
            c.assume(o.ok)
        p.here = False
        p.inbox = []
        p.invocations = []
        c.reach("leave")

    def post(self, to, message, what, about, given=None):
        """The router sends a message: it is queued for its recipient."""
        for p in self.peers:
            if p.here and eq(p.sid, to):
                p.inbox.append((message, what, about, given))
                return p
        self.c.check(False, "the router only sends to sessions that are attached")
        self.c.assume(False)

    def emit(self, p, cls, fields, gone=False):
        """A client sends a message and the router handles it; what the router gives back."""
        c = self.c
        o = c.call(p.s.send_message, build(c, cls, fields))
        c.check(o.ok, f"a client's session sends {cls}")
        c.assume(o.ok)
        m = o.value[1]
        r = self.dealer if cls in DEALER else self.broker
        o = c.call(r.receive_publish if cls == "Publish" else r.receive_message, p.sid, m)
        if not o.ok:
            c.check(gone and o.raised(ValueError), f"the router handles {cls}")
            c.assume(gone)
            c.reach("too late")
            return None
        return o.value

    # -- what clients do
    def request(self, p, cls, **f):
        c = self.c
        ident = c.id("request")
        for r in p.requests:
            c.assume(lnot(eq(r.ident, ident)))
        r = Request(p, cls, ident, f.get("registration_id", f.get("subscription_id")))
        p.requests.append(r)
        given = {a: snap(f[a]) for a in ("args", "kwargs") if a in f}
        if cls == "Call":
            r.rp = c.choice("receive_progress", [False, True])
            f["options"] = c.mkdict([("receive_progress", True)] if r.rp else [])
        elif cls == "Publish":
            r.expects = c.choice("acknowledge", [False, True])
            f["options"] = c.mkdict([("acknowledge", True)] if r.expects else [])
        elif cls in ("Register", "Subscribe"):
            f["options"] = {}
        v = self.emit(p, cls, dict(f, request_id=ident))
        c.reach("sent " + cls)
        if cls == "Publish":
            if v.event is not None:
                for to in v.recipients:
                    self.post(to, v.event, "event", r, given)
            if v.ack is not None:
                self.post(v.ack.recipient, v.ack.message, "reply", r)
        elif type(v.message).__name__ == "Invocation":
            c.check(cls == "Call", "only a CALL becomes an INVOCATION")
            r.callee = self.post(v.recipient, v.message, "invocation", r, given)
        else:
            self.post(v.recipient, v.message, "reply", r)

    def answer(self, p, i, how):
        c = self.c
        ident, r = i
        f = dict(arguments(c), request_id=ident)
        given = {a: snap(f[a]) for a in ("args", "kwargs")}
        if how == "Error":
            f.update(message_type=68, details={}, uri=c.str("uri"))
        else:
            f["options"] = c.mkdict([("progress", True)] if how == "progress" else [])
        v = self.emit(p, "Error" if how == "Error" else "Yield", f, gone=not r.by.here)
        if v is not None:
            self.post(v.recipient, v.message, "progress" if how == "progress" else "reply", r, given)
        if how != "progress":
            p.invocations.remove(i)
        c.reach("answered " + how)

    def deliver(self, p):
        """The next message on the way to p arrives."""
        c = self.c
        m, what, r, given = p.inbox.pop(0)
        cls = type(m).__name__
        o = c.call(p.s.receive, (b"frame", m))
        c.check(o.ok, f"a session accepts the {cls} the router sends it")
        c.assume(o.ok)
        m = o.value
        if given is not None:
            c.check(land(*[carried(c, getattr(m, a), given[a]) for a in given]), f"{cls} brings the contents that were sent")
        if what in ("reply", "progress"):
            c.check(p is r.by, "an answer arrives at the session that asked")
            c.check(cls in (REPLY[r.kind], "Error"), "an answer is of the kind that was asked for")
            c.check(eq(m.request_id, r.ident), "an answer says which request it answers")
        if what == "reply":
            r.answers += 1
            c.check(r.expects and r.answers == 1, "a request is answered once")
            if cls in p.held:
                h = p.held[cls]
                i = m.registration_id if cls == "Registered" else m.subscription_id
                if not any(bool(eq(i, x)) for x in h):
                    h.append(i)
            if cls in ("Unregistered", "Unsubscribed"):
                h = p.held["Registered" if cls == "Unregistered" else "Subscribed"]
                h[:] = [x for x in h if not eq(x, r.target)]
        elif what == "invocation":
            p.invocations.append((m.request_id, r))
            c.check(eq(truth(c.f(m.details.get, "receive_progress", False)), r.rp),
                    "a callee learns whether progressive results are wanted")
        c.reach("arrived " + cls)

    def moves(self, p, ops):
        out = [x for x in ops if x in ("Register", "Subscribe", "Call", "Publish")]
        if "answer" in ops:
            out += [("answer", i, how) for i in p.invocations for how in ("Yield", "Error") + (("progress",) if i[1].rp else ())]
        for k, h in (("Unregister", "Registered"), ("Unsubscribe", "Subscribed")):
            if k in ops:
                asked = [r.target for r in p.requests if r.kind == k and not r.answers]
                out += [(k, x) for x in p.held[h] if not any(bool(eq(x, y)) for y in asked)]
        if p.inbox:
            out.append("deliver")
        if "leave" in ops:
            out.append("leave")
        return out

    def act(self, p, op):
        c = self.c
        if op == "deliver":
            self.deliver(p)
        elif op == "leave":
            self.leave(p)
        elif op in ("Register", "Subscribe"):
            self.request(p, op, **{"procedure" if op == "Register" else "topic": c.str("name")})
        elif op in ("Call", "Publish"):
            self.request(p, op, **{"procedure" if op == "Call" else "topic": c.str("name")}, **arguments(c))
        elif op[0] == "answer":
            self.answer(p, op[1], op[2])
        else:
            self.request(p, op[0], **{"registration_id" if op[0] == "Unregister" else "subscription_id": op[1]})

    def step(self, ops):
        here = [p for p in self.peers if p.here]
        p, op = self.c.choice("move", [(p, o) for p in here for o in self.moves(p, ops)])
        self.act(p, op)

    def drain(self):
        while any(p.inbox for p in self.peers):
            for p in self.peers:
                while p.inbox:
                    self.deliver(p)

    def settle(self):
        """Everything arrives and every invocation is answered: every request has had its answer."""
        c = self.c
        self.drain()
        for p in self.peers:
            for i in list(p.invocations):
                self.answer(p, i, "Yield")
        self.drain()
        for p in self.peers:
            for r in p.requests if p.here else []:
                if r.expects and (r.callee is None or r.callee.here):
                    c.check(r.answers == 1, f"a {r.kind} is answered")
        c.reach("settled")


def prepared(net, what):
    """The first peer registered or subscribed."""
    for x in what:
        net.act(net.peers[0], x)
        net.deliver(net.peers[0])
    return net


def rpc(c, peers, n):
    net = prepared(Net(c, peers), ["Register"])
    if c.choice("calling", [False, True]):
        net.act(c.choice("caller", net.peers[:2]), "Call")
    for _ in range(n):
        net.step(RPC + ["leave"])
    net.settle()


def pubsub(c, peers, n):
    net = prepared(Net(c, peers), ["Subscribe"])
    if c.choice("two", [False, True]):
        net.act(net.peers[1], "Subscribe")
    for _ in range(n):
        net.step(PUBSUB + ["leave"])
    net.settle()


def mixed(c, peers, n):
    net = prepared(Net(c, peers), ["Register", "Subscribe"])
    for _ in range(n):
        net.step(RPC + PUBSUB + ["leave"])
    net.settle()


HARNESSES = [
    Harness("rpc", rpc, quick={"peers": 2, "n": 3}, thorough={"peers": 2, "n": 5},
            labels=["arrived Invocation", "arrived Result", "arrived Error", "arrived Registered", "arrived Unregistered", "settled",
                    "too late", "answered progress"],
            bounds="two clients, one with a registration, with and without a call on its way; 3 (thorough 5) moves: REGISTER, "
                   "UNREGISTER, CALL, answer, arrival of a message, leave"),
    Harness("pubsub", pubsub, quick={"peers": 2, "n": 3}, thorough={"peers": 2, "n": 5},
            labels=["arrived Event", "arrived Published", "arrived Subscribed", "arrived Unsubscribed", "settled"],
            bounds="two clients, one subscribed, the other perhaps about to be; 3 (thorough 5) moves: SUBSCRIBE, UNSUBSCRIBE, "
                   "PUBLISH, arrival of a message, leave"),
    Harness("mixed", mixed, quick={"peers": 2, "n": 2}, thorough={"peers": 3, "n": 4}, labels=["settled"],
            bounds="two (thorough three) clients, one with a registration and a subscription; 2 (thorough 4) moves of any kind"),
]
ASSUMPTIONS = [
    "a client uses a request ID once, ends only what it holds and has not asked to end yet, and answers an invocation once",
    "links between client and router deliver in order; a session ID is not used again",
]
