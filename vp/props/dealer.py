"""Histories of dealer operations against a reference model (shared by D01 to D06).

Sessions, procedures, request, registration and invocation IDs and progress flags are symbolic.  The model keeps one
record per REGISTERED and per INVOCATION the dealer produced, with formulas for whether they are still live or pending,
and follows what the dealer answered; each property module asserts only its own facts (`focus`)."""
from .broker import arguments, carried, message
from .common import eq, iff, implies, kind, land, lnot, lor, same, snap, truth
from .wire import PLAIN, build

OTHERS = [k for k in ["Hello", "Welcome"] + PLAIN if k not in ("Call", "Yield", "Register", "Unregister", "Error")]
NO_PROCEDURE = "wamp.error.no_such_procedure"
EXISTS = "wamp.error.procedure_already_exists"


class Registration:
    def __init__(self, owner, procedure, ident):
        self.owner = owner
        self.procedure = procedure
        self.ident = ident
        self.live = True


class Call:
    """One call the dealer turned into an invocation."""

    def __init__(self, caller, request, callee, ident, registration, progress, receive_progress):
        self.caller = caller
        self.request = request
        self.callee = callee
        self.ident = ident
        self.registration = registration
        self.open = progress
        self.receive_progress = receive_progress
        self.pending = True
        self.gone = False


class Session:
    def __init__(self, sid, details):
        self.sid = sid
        self.details = details
        self.attached = True


def flags(c, name, how):
    """An option that is absent, true, or (how == "full") false."""
    if how == "none":
        return [], False
    v = c.bool(name)
    if how == "full" and c.choice(name + " given", [True, False]):
        return [(name, v)], v
    return [(name, True, v)], v


def contents(c, full):
    """Positional and keyword arguments, or a binary payload."""
    if not full:
        return arguments(c)
    what = c.choice("content", ["args", "kwargs", "both", "none", "empty", "payload", "payload none"])
    f = {"args": None, "kwargs": None}
    if what in ("args", "both"):
        f["args"] = [c.any("arg", depth=0) for _ in range(c.choice("nargs", [1, 2]))]
    if what in ("kwargs", "both"):
        f["kwargs"] = c.mkdict([(c.str("key"), c.any("kwarg", depth=0))])
    if what == "empty":
        f["args"] = []
        f["kwargs"] = c.mkdict([])
    if what == "payload":
        f["payload"] = c.bytes("payload", 3)
        f["serializer"] = c.int("serializer", 0, 3)
        f["binary"] = c.choice("binary", [True, False])
    if what == "payload none":
        f["payload"] = c.choice("payload bytes", [b"", None])
        f["serializer"] = c.choice("serializer id", [None, 0])
        f["binary"] = c.choice("binary", [True, False])
    return f


def same_contents(c, m, f, before):
    """Does message m carry the contents f (absent and empty arguments count as equal)?"""
    cs = []
    for a in ("args", "kwargs"):
        cs.append(carried(c, getattr(m, a), before[a]))
    if "payload" in f:
        cs.append(m.payload is f["payload"] or (m.payload is not None and same(m.payload, f["payload"])))
        s = m.payload_serializer
        cs.append(s is None if f["serializer"] is None else s is not None and same(s, f["serializer"]))
        cs.append(eq(truth(m.payload_is_binary()), f["binary"]))
    return land(*cs)


class Dealer:
    def __init__(self, c, focus, full=False, progress="none"):
        self.c = c
        self.focus = focus
        self.full = full
        self.progress = progress
        self.d = c.w.dealer.Dealer()
        self.sessions = []
        self.registrations = []
        self.calls = []

    def chk(self, props, cond, label):
        if self.focus in props:
            self.c.check(cond, label)

    def lost(self):
        self.c.assume(False)

    # -- the model
    def attached(self, sid):
        return lor(*[eq(s.sid, sid) for s in self.sessions if s.attached])

    def present(self):
        return [s for s in self.sessions if s.attached]

    def stranger(self):
        sid = self.c.id("stranger")
        self.c.assume(lnot(self.attached(sid)))
        return sid

    def registered(self, procedure):
        return lor(*[land(r.live, eq(r.procedure, procedure)) for r in self.registrations])

    def owns(self, sid, ident):
        return lor(*[land(r.live, eq(r.owner, sid), eq(r.ident, ident)) for r in self.registrations])

    def to_present(self, recipient):
        if self.focus == "D05":
            self.c.check(self.attached(recipient), "messages are only addressed to attached sessions")

    def options(self, pairs):
        if self.full:
            return self.c.mkdict(pairs)
        return self.c.open("options", pairs, ["progress", "receive_progress"])

    # -- operations
    def details(self, sid):
        return self.c.w.types.SessionDetails(sid, self.c.str("realm"), self.c.str("authid"), self.c.str("authrole"))

    def join(self):
        sid = self.c.id("session")
        self.c.assume(lnot(self.attached(sid)))
        details = self.details(sid)
        o = self.c.call(self.d.add_session, details)
        self.chk(("D01", "D05"), o.ok, "a session that is not attached can join")
        if not o.ok:
            self.lost()
        s = Session(sid, details)
        self.sessions.append(s)
        return s

    def leave(self, s):
        o = self.c.call(self.d.remove_session, s.sid)
        self.chk(("D01", "D05"), o.ok, "an attached session can leave")
        if not o.ok:
            self.lost()
        self.drop(s)

    def drop(self, s):
        s.attached = False
        for r in self.registrations:
            r.live = land(r.live, lnot(eq(r.owner, s.sid)))
        for k in self.calls:
            left = land(k.pending, lor(eq(k.caller, s.sid), eq(k.callee, s.sid)))
            k.gone = lor(k.gone, left)
            k.pending = land(k.pending, lnot(left))

    def register(self, sid, procedure=None):
        c = self.c
        req = c.id("request")
        procedure = c.str("procedure") if procedure is None else procedure
        m = build(c, "Register", {"request_id": req, "options": c.open("options"), "procedure": procedure})
        o = c.call(self.d.receive_message, sid, m)
        self.chk(("D01",), o.ok, "a REGISTER of an attached session is answered")
        if not o.ok:
            return None
        r = o.value.message
        cls = type(r).__name__
        self.chk(("D01",), cls in ("Registered", "Error"), "REGISTER is answered with REGISTERED or ERROR")
        if cls not in ("Registered", "Error"):
            self.lost()
        self.to_present(o.value.recipient)
        self.chk(("D01",), eq(o.value.recipient, sid), "the answer to REGISTER goes to the requester")
        self.chk(("D01",), eq(r.request_id, req), "the answer to REGISTER carries its request ID")
        taken = self.registered(procedure)
        if cls == "Error":
            self.chk(("D01",), taken, "REGISTER of a free procedure is accepted")
            self.chk(("D01",), land(eq(r.uri, EXISTS), eq(r.message_type, 64)),
                     "REGISTER of a registered procedure gives a procedure_already_exists error for REGISTER")
            c.reach("already exists")
            return None
        self.chk(("D01",), lnot(taken), "REGISTER of a registered procedure is not accepted")
        for x in self.registrations:
            self.chk(("D01",), implies(x.live, lnot(eq(x.ident, r.registration_id))),
                     "live registrations have different IDs")
        self.registrations.append(Registration(sid, procedure, r.registration_id))
        c.reach("registered")
        return self.registrations[-1]

    def unregister(self, sid, ident=None):
        """UNREGISTER of a registration the session owns."""
        c = self.c
        req = c.id("request")
        if ident is None:
            ident = c.id("registration")
            c.assume(self.owns(sid, ident))
        m = build(c, "Unregister", {"request_id": req, "registration_id": ident})
        o = c.call(self.d.receive_message, sid, m)
        self.chk(("D01",), o.ok, "the owner of a registration can unregister it")
        if not o.ok:
            return False
        r = o.value
        self.chk(("D01",), type(r.message).__name__ == "Unregistered", "UNREGISTER is answered with UNREGISTERED")
        self.to_present(r.recipient)
        self.chk(("D01",), eq(r.recipient, sid), "the answer to UNREGISTER goes to the requester")
        self.chk(("D01",), eq(r.message.request_id, req), "the answer to UNREGISTER carries its request ID")
        for x in self.registrations:
            x.live = land(x.live, lnot(land(eq(x.owner, sid), eq(x.ident, ident))))
        c.reach("unregistered")
        return True

    def call(self, sid, procedure=None, req=None, only=None, duplicates=False):
        """A CALL of an attached session; the record of the call it became or belongs to, or None.
        only: "new" or "more" (another part of a progressive call)."""
        c = self.c
        req = c.id("call") if req is None else req
        procedure = c.str("called") if procedure is None else procedure
        p1, progress = flags(c, "progress", self.progress)
        p2, rp = flags(c, "receive_progress", self.progress)
        f = contents(c, self.full)
        before = {a: snap(f[a]) for a in ("args", "kwargs")}
        mine = [land(k.pending, eq(k.caller, sid), eq(k.request, req)) for k in self.calls]
        more = [land(x, k.open) for x, k in zip(mine, self.calls)]
        if not duplicates:
            c.assume(land(*[implies(x, k.open) for x, k in zip(mine, self.calls)]))
        if only == "new":
            c.assume(lnot(lor(*more)))
        elif only == "more":
            c.assume(lor(*more))
        for x, k in zip(more, self.calls):
            c.assume(implies(x, iff(rp, k.receive_progress)))
        m = build(c, "Call", dict(f, request_id=req, procedure=procedure, options=self.options(p1 + p2)))
        o = c.call(self.d.receive_message, sid, m)
        if duplicates and not o.ok:
            c.check(lor(*mine), "a CALL of an attached session is answered")
            return None
        self.chk(("D02",), o.ok, "a CALL of an attached session is answered")
        self.chk(("D04",), implies(lor(*more), o.ok), "a further part of a progressive call is forwarded")
        if not o.ok:
            return None
        r = o.value.message
        cls = type(r).__name__
        to = o.value.recipient
        self.to_present(to)
        self.chk(("D02",), cls in ("Invocation", "Error"), "CALL becomes INVOCATION or ERROR")
        if cls == "Error":
            self.chk(("D04",), lnot(lor(*more)), "a further part of a progressive call is forwarded")
            self.chk(("D02",), lor(lor(*more), lnot(self.registered(procedure))), "a CALL to a registered procedure is routed")
            self.chk(("D02",), land(eq(r.uri, NO_PROCEDURE), eq(r.message_type, 48), eq(r.request_id, req)),
                     "a CALL to an unknown procedure gives a no_such_procedure error for its request ID")
            self.chk(("D02",), eq(to, sid), "the no_such_procedure error goes to the caller")
            c.reach("no such procedure")
            return None
        if cls != "Invocation":
            self.lost()
        if self.focus == "D02":
            c.check(same_contents(c, r, f, before), "the INVOCATION carries the caller's arguments and payload")
        if self.focus == "D04":
            c.check(iff(truth(c.f(r.details.get, "progress", False)), progress),
                    "the INVOCATION is marked progressive exactly when the caller marked the CALL")
            c.check(iff(truth(c.f(r.details.get, "receive_progress", False)), rp),
                    "the INVOCATION says whether the caller asked for progressive results")
        for x, k in zip(more, self.calls):
            if x:
                self.chk(("D04",), eq(r.request_id, k.ident), "further parts of a call keep its invocation ID")
                self.chk(("D04",), eq(to, k.callee), "further parts of a call go to the same callee")
                self.chk(("D05",), eq(to, k.callee), "further parts of a call go to the callee it has")
                k.open = progress
                c.reach("more")
                return k
        self.chk(("D02",), self.registered(procedure), "a CALL to a procedure nobody registered is not routed")
        self.chk(("D05",), lor(*[land(g.live, eq(g.procedure, procedure), eq(g.owner, to)) for g in self.registrations]),
                 "calls only reach sessions that hold the registration")
        for g in self.registrations:
            self.chk(("D02",), implies(land(g.live, eq(g.procedure, procedure)),
                                       land(eq(to, g.owner), eq(r.registration_id, g.ident))),
                     "the INVOCATION goes to the session that holds the registration, with the registration's ID")
        for k in self.calls:
            self.chk(("D02",), implies(k.pending, lnot(eq(k.ident, r.request_id))),
                     "no other pending invocation has the invocation's ID")
        self.calls.append(Call(sid, req, to, r.request_id, r.registration_id, progress, rp))
        c.reach("invocation")
        return self.calls[-1]

    def answer(self, sid, cls=None, ident=None, only=None):
        """A YIELD or invocation ERROR; only: "right" (from the callee of a pending call) or "wrong"."""
        c = self.c
        cls = c.choice("answer", ["Yield", "Error"]) if cls is None else cls
        ident = c.id("invocation") if ident is None else ident
        right = [land(k.pending, eq(k.ident, ident), eq(k.callee, sid)) for k in self.calls]
        if only == "right":
            c.assume(lor(*right))
        elif only == "wrong":
            c.assume(lnot(lor(*right)))
        f = contents(c, self.full)
        before = {a: snap(f[a]) for a in ("args", "kwargs")}
        progress = False
        if cls == "Yield":
            p, progress = flags(c, "progress", self.progress)
            m = build(c, cls, dict(f, request_id=ident, options=self.options(p)))
        else:
            for a in ("payload", "serializer", "binary"):
                f.pop(a, None)
            uri = c.str("uri")
            det = c.open("details") if not self.full else c.mkdict(
                [(c.str("detail"), c.any("value", depth=0))] if c.choice("details", [True, False]) else [])
            sdet = snap(det)
            m = build(c, cls, dict(f, message_type=68, request_id=ident, uri=uri, details=det))
        o = c.call(self.d.receive_message, sid, m)
        right = lor(*right)
        if not o.ok:
            self.chk(("D03",), lnot(right), "an answer of the callee to a pending invocation is accepted")
            self.chk(("D03",), o.raised(ValueError), "any other answer is refused with ValueError")
            self.chk(("D04",), lnot(right), "an answer to a call that is still pending is accepted")
            c.reach("refused")
            return False
        r, to = o.value.message, o.value.recipient
        self.to_present(to)
        self.chk(("D03",), right, "only answers of the callee to a pending invocation are accepted")
        if self.focus == "D05":
            c.check(lor(right, lnot(lor(*[land(k.gone, eq(k.ident, ident)) for k in self.calls]))),
                    "answers to calls that ended because a session left are refused")
        if self.focus == "D04":
            c.check(right, "after a final result nothing is forwarded")
        for k in self.calls:
            if not land(k.pending, eq(k.ident, ident), eq(k.callee, sid)):
                continue
            self.chk(("D03",), type(r).__name__ == ("Result" if cls == "Yield" else "Error"), "YIELD becomes RESULT, ERROR ERROR")
            self.chk(("D03", "D05"), eq(to, k.caller), "the answer goes to the session that made the call")
            self.chk(("D03",), eq(r.request_id, k.request), "the answer carries the call's request ID")
            if self.focus == "D03":
                c.check(same_contents(c, r, f, before), "the answer carries the callee's arguments and payload")
                if cls == "Error":
                    c.check(eq(r.message_type, 48), "the ERROR is for the CALL")
                    c.check(eq(r.uri, uri), "the ERROR carries the callee's error URI")
                    c.check(same(r.details, sdet), "the ERROR carries the callee's error details")
            goes_on = land(progress, k.receive_progress)
            if cls == "Yield":
                self.chk(("D04",), iff(truth(c.f(r.details.get, "progress", False)), goes_on),
                         "a RESULT is progressive exactly when the YIELD is and the caller asked for it")
            k.pending = goes_on
            c.reach("answered")
            return True
        return True

    def check_registered(self, procedure):
        o = self.c.call(self.d.has_registration, procedure)
        self.chk(("D01", "D06"), o.ok, "the dealer reports whether a procedure is registered")
        if o.ok:
            self.chk(("D01", "D06"), iff(truth(o.value), self.registered(procedure)),
                     "the dealer reports a procedure as registered exactly while a registration lives")

    def implied(self, g, procedure, k):
        return implies(land(g.live, eq(g.procedure, procedure)), land(eq(k.callee, g.owner), eq(k.registration, g.ident)))

    # -- histories
    def step(self, ops, most):
        """One operation of a session, which joins first if it is a new one."""
        c = self.c
        here = self.present()
        new = [None] if len(self.sessions) < most else []
        op = c.choice("op", ops)
        if op in ("leave", "unregister", "answer"):
            s = c.choice("who", here)
        else:
            s = c.choice("who", here + new) or self.join()
        if op == "leave":
            self.leave(s)
        elif op == "unregister":
            self.unregister(s.sid)
        elif op == "answer":
            self.answer(s.sid, only="right")
        elif op == "register":
            self.register(s.sid)
        elif op == "call":
            self.call(s.sid)
        else:
            raise AssertionError(op)
        return op


def busy(c, d, callees, callers, calls, registrations=1):
    """Callees with registrations of any procedures, and pending calls of callers to them."""
    for _ in range(callees):
        s = d.join()
        for _ in range(registrations):
            if d.register(s.sid) is None:
                c.assume(False)
    own = list(d.sessions)
    for _ in range(callers):
        d.join()
    for _ in range(calls):
        s = c.choice("caller", d.sessions[callees:] or own)
        if d.call(s.sid) is None:
            c.assume(False)


def apart(c, focus, n, ops, progress="none"):
    """Two dealers in one process; operations on either; the second one is looked at."""
    ds = [Dealer(c, focus, progress=progress), Dealer(c, focus, progress=progress)]
    for d in ds:
        d.join()
    for _ in range(n):
        d = ds[c.choice("which", [0, 1])]
        o = [x for x in ops if d.present() or x not in ("leave", "unregister", "answer")]
        d.step(o, 1) if d.present() else d.join()
    c.reach("apart")
    return ds[1]
