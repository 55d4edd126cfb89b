"""The joiner joins only on a WELCOME it is waiting for."""
from .broker import message
from .client import Wire
from .common import Harness, eq, land, same, snap
from .wire import PLAIN, build, same_messages

OTHERS = ["Hello"] + [k for k in PLAIN if k not in ("Challenge", "Abort")]


class Client:
    def __init__(self, c, stub=True):
        self.c = c
        self.wire = Wire()
        self.challenged = []
        client = self

        class Authenticator(c.w.auth.IClientAuthenticator):
            def authenticate(self, challenge):
                m = build(c, "Authenticate", {"signature": c.str("signature"), "extra": {}})
                client.challenged.append((challenge, m))
                return m

        self.realm = c.str("realm")
        kw = {"authenticator": Authenticator("stub", c.str("authid"), {})} if stub else {}
        self.j = c.w.joiner.Joiner(self.realm, self.wire, **kw)
        self.state = "start"
        self.welcome = None
        self.over = False

    def give(self, msg):
        """The outcome, with the message to be sent (or None) as value."""
        c = self.c
        if c.choice("through", ["receive_message", "receive"]) == "receive":
            n = len(self.wire.sent)
            o = c.call(self.j.receive, (b"frame", msg))
            reply = self.wire.sent[-1] if len(self.wire.sent) > n else None
            if o.ok:
                c.check((o.value is None) == (reply is None) and (reply is None or o.value[1] is reply),
                        "receive gives the encoded answer")
                o.value = reply
            return o
        return c.call(self.j.receive_message, msg)

    def observe(self):
        c = self.c
        d = c.call(self.j.get_session_details)
        if self.welcome is None:
            c.check(not d.ok, "no session details before WELCOME")
            return
        c.check(d.ok, "session details are available after WELCOME")
        w, d = self.welcome, d.value
        c.check(land(eq(d.session_id, w["session_id"]), eq(d.realm, self.realm)),
                "session details name WELCOME's session ID and the client's realm")
        c.check(land(same_or_none(d.authid, w.get("authid")), same_or_none(d.authrole, w.get("authrole"))),
                "session details name WELCOME's authid and authrole")

    def hello(self):
        o = self.c.call(self.j.send_hello)
        self.c.check(o.ok, "HELLO can be sent")
        self.state = "hello"

    def refused(self, o, what):
        self.c.check(not o.ok, f"{what} is refused")
        self.c.check(o.raised(ValueError), f"{what} is refused with ValueError")
        self.c.reach("refused " + what)

    def receive(self, cls, vary=False):
        c = self.c
        n = len(self.challenged)
        if cls == "Welcome":
            f = {"session_id": c.id("session"), "roles": c.open("roles", [("broker", {})])}
            for a in ("authid", "authrole"):
                if c.choice(a + " given", [True, False] if self.welcome is None else [True]):
                    f[a] = c.str(a)
            f["authmethod"], f["authextra"] = c.str("authmethod"), c.open("authextra")
            o = self.give(build(c, cls, dict(f)))
            if self.state in ("hello", "authenticated"):
                c.check(o.ok and o.value is None, "an awaited WELCOME is accepted")
                self.state = "joined"
                self.welcome = f
                c.reach("joined")
            else:
                self.refused(o, "WELCOME")
        elif cls == "Challenge":
            x = c.open("extra", [("challenge", c.str("challenge"))] if c.choice("challenge given", [True, False]) else [], ["challenge"])
            before = snap(x)
            am = c.str("method")
            o = self.give(build(c, cls, {"authmethod": am, "extra": x}))
            if self.state == "hello":
                c.check(o.ok, "a CHALLENGE after HELLO is accepted")
                c.check(len(self.challenged) == n + 1, "the authenticator is asked")
                ch, m = self.challenged[-1]
                c.check(land(eq(ch.authmethod, am), same(ch.extra, before)), "the authenticator sees the CHALLENGE")
                c.check(o.value is not None and same_messages(o.value, m), "a CHALLENGE is answered with the authenticator's AUTHENTICATE")
                self.state = "authenticated"
                c.reach("authenticated")
                return
            self.refused(o, "CHALLENGE")
        elif cls == "Abort":
            f = {"details": c.open("details"), "reason": c.str("reason")}
            a = c.choice("args", [None, 0, 1, 2] if vary else [None, 1])
            k = c.choice("kwargs", [None, 0, 1] if vary else [1])
            if a is not None:
                f["args"] = [c.any("arg", depth=0) for _ in range(a)]
            if k is not None:
                f["kwargs"] = c.mkdict([(c.str("key"), c.any("kwarg", depth=0)) for _ in range(k)])
            before = {x: snap(y) for x, y in f.items()}
            o = self.give(build(c, cls, f))
            c.check(o.raised(c.w.exception.ApplicationError), "ABORT is raised as an application error")
            e = o.err
            c.check(eq(e.message, before["reason"]), "the error carries the reason")
            if a is not None:
                c.check(c.f(len, e.args) == a and same(list(e.args), before["args"]), "the error carries the arguments")
            if k is None:
                c.check(e.kwargs is None or c.f(len, e.kwargs) == 0, "the error carries no keyword arguments")
            else:
                c.check(e.kwargs is not None and same(e.kwargs, before["kwargs"]), "the error carries the keyword arguments")
            self.over = True
            c.reach("aborted")
        else:
            self.refused(self.give(message(c, cls)), "another message")
        c.check(len(self.challenged) == n, "the authenticator is only asked for an awaited CHALLENGE")


def same_or_none(a, b):
    return a is None if b is None else a is not None and eq(a, b)


def histories(c, n, others, stub):
    s = Client(c, stub)
    s.observe()
    for _ in range(n):
        ops = (["hello"] if s.state == "start" else []) + ["Welcome", "Abort", "other"] + (["Challenge"] if stub else [])
        op = c.choice("op", ops)
        if op == "hello":
            s.hello()
        else:
            s.receive(c.choice("other", others) if op == "other" else op)
        s.observe()
        if s.over:
            break


def others(c):
    """Every other message in every state."""
    s = Client(c)
    state = c.choice("state", ["start", "hello", "authenticated", "joined"])
    if state != "start":
        s.hello()
    if state == "authenticated" or state == "joined" and c.choice("challenged", [True, False]):
        s.receive("Challenge")
    if state == "joined":
        s.receive("Welcome")
    s.receive(c.choice("other", OTHERS + ["Abort"]), True)
    s.observe()
    if s.over:
        return
    if state in ("hello", "authenticated"):
        s.receive("Welcome")
        s.observe()
    c.reach("state " + state)


L = ["joined", "authenticated", "aborted", "refused WELCOME", "refused CHALLENGE", "refused another message"]
HARNESSES = [
    Harness("histories", histories, quick={"n": 4, "others": ["Authenticate"], "stub": True},
            thorough={"n": 6, "others": ["Authenticate"], "stub": True}, labels=L,
            bounds="every sequence of 4 (thorough 6) steps: HELLO, WELCOME, CHALLENGE, ABORT, another message"),
    Harness("default", histories, quick={"n": 3, "others": ["Authenticate"], "stub": False},
            thorough={"n": 5, "others": ["Authenticate"], "stub": False}, labels=["joined", "aborted", "refused WELCOME"],
            bounds="the same for a client without authenticator, 3 (thorough 5) steps, no CHALLENGE"),
    Harness("others", others, labels=["state start", "state hello", "state authenticated", "state joined", "refused another message", "aborted"],
            bounds="every message type outside the handshake and any ABORT in every state"),
]
ASSUMPTIONS = [
    "the client sends one HELLO",
    "what a client does after ABORT is unspecified",
    "an authenticator that cannot answer a CHALLENGE is unspecified",
]
