"""Handshakes against a reference model (shared by A01, A02 and A07).

The server's authenticator is a stub that records each request and decides freely.  The model follows the acceptor: what was
asked, what was granted, which challenge was issued, and whether the presented proof is the right one; each property module
asserts only its own facts (`focus`)."""
import base64
import binascii
import hashlib
import hmac

import nacl.encoding
import nacl.signing

from vp.sym import SymBytes, z3

from .broker import arguments, message
from .client import Wire
from .common import eq, iff, is_valid_id, land, lnot, lor, same, snap, truth
from .wire import PLAIN, build

METHODS = ["anonymous", "ticket", "wampcra", "cryptosign"]
OTHERS = [k for k in ["Welcome"] + PLAIN if k not in ("Authenticate", "Abort")]
BAD_TEXT = ["", "=", "####", "zz", "abc", "é", "DIVL3bKs/Ei91eQyYznzUqEsiTmX705BNEXuicNpi8A=", "00" * 63]


def xor(c, a, b):
    if not c.symbolic:
        return bytes(x ^ y for x, y in zip(a, b))
    ta = list(a.b) if type(a) is SymBytes else list(a)
    tb = list(b.b) if type(b) is SymBytes else list(b)
    return SymBytes([z3.simplify((z3.BitVecVal(x, 8) if type(x) is int else x) ^ y) for x, y in zip(ta, tb)])


def masked(c, b, name="mask"):
    """b with any of its bits flipped, and the formula that none is."""
    n = c.f(len, b)
    m = c.bytes(name, n)
    return xor(c, b, m), eq(m, bytes(n))


def b64(c, b):
    return c.f(base64.b64encode, b).decode()


def hexa(c, b):
    return c.f(binascii.hexlify, b).decode()


def unhex(c, s):
    return c.f(binascii.unhexlify, s)


def mac(c, key, challenge):
    return c.f(hmac.new, key, challenge.encode(), hashlib.sha256).digest()


def signing_key(c, name="seed"):
    return c.f(nacl.signing.SigningKey, c.bytes(name, 32))


def public_hex(sk):
    return sk.verify_key.encode(nacl.encoding.HexEncoder).decode()


class Denied(Exception):
    pass


class Issued:
    """A challenge that was sent."""

    def __init__(self, method, challenge, response, key):
        self.method = method
        self.challenge = challenge
        self.response = response
        self.key = key


class Server:
    def __init__(self, c, focus, authenticator=True, salted=True, plain=False, serializer=None, roles=None, vary=False,
                 before=None):
        self.c = c
        self.focus = focus
        self.vary = vary
        self.wire = serializer or Wire()
        self.consulted = []
        self.kinds = ["plain"] if plain else []
        self.kinds = ["secret"] + (["salted"] if salted else []) + self.kinds
        class Authenticator(c.w.auth.IServerAuthenticator):
            def methods(self):
                return list(METHODS)

            def authenticate(self, request):
                return self.server.decide(request)

        self.authenticated = authenticator
        self.before = before  # an earlier handshake with the same authenticator
        A = c.w.acceptor.Acceptor
        self.judge_ = before.judge_ if before else Authenticator()
        self.judge_.server = self
        kw = {"authenticator": self.judge_} if authenticator else {}
        if roles is not None:
            kw["roles"] = roles
        self.roles = roles
        self.a = A(self.wire, **kw)
        self.state = "start"
        self.hello_ = None
        self.issued = None
        self.welcome = None
        self.granted = None

    def chk(self, props, cond, label):
        if self.focus in props:
            self.c.check(cond, label)

    # -- the authenticator
    def decide(self, request):
        c = self.c
        if c.choice("decision", ["accept", "refuse"]) == "refuse":
            self.consulted.append((request, False, None))
            raise c.choice("error", [Denied("no such user"), KeyError("user"), ValueError()])
        a, r = c.str("granted authid"), c.str("granted authrole")
        auth = c.w.auth
        if self.hello_ is not None and self.hello_[0] == "wampcra":
            k = c.choice("response", self.kinds)
            if k == "secret":
                v = auth.WAMPCRAResponse(a, r, c.str("secret"))
            elif k == "salted":
                v = auth.WAMPCRASaltedResponse(a, r, c.str("secret"), c.str("salt"), c.int("iterations", 1), c.int("keylen", 1))
            else:
                v = auth.Response(a, r)
        else:
            v = auth.Response(a, r)
        self.consulted.append((request, True, v, a, r))
        return v

    # -- messages
    def give(self, msg):
        """Hand the message over; the outcome with the reply as value."""
        c = self.c
        if c.choice("through", ["receive_message", "receive"] if self.focus == "A02" else ["receive_message"]) == "receive":
            n = len(self.wire.sent)
            o = c.call(self.a.receive, (b"frame", msg))
            if o.ok:
                self.chk(("A02",), c.f(isinstance, o.value, tuple) and c.f(len, o.value) == 2, "receive gives a reply and a flag")
                data, final = o.value
                reply = self.wire.sent[-1] if len(self.wire.sent) > n else None
                self.chk(("A02",), (data is None) == (reply is None) and (reply is None or data[1] is reply),
                         "the reply is encoded with the serializer")
                if reply is not None:
                    self.chk(("A02",), iff(truth(final), type(reply).__name__ in ("Welcome", "Abort")),
                             "the reply is final exactly when it is WELCOME or ABORT")
                o.value = reply
            return o
        return c.call(self.a.receive_message, msg)

    def observe(self):
        """Session details and the aborted flag."""
        c = self.c
        d = c.call(self.a.get_session_details)
        if self.welcome is None:
            self.chk(("A02",), not d.ok, "no session details before WELCOME")
        else:
            self.chk(("A02",), d.ok, "session details are available after WELCOME")
            if d.ok:
                x = d.value
                self.chk(("A02",), land(eq(x.session_id, self.welcome.session_id), eq(x.realm, self.hello_[1]["realm"])),
                         "session details name the welcomed session ID and the realm of the HELLO")
                self.chk(("A02",), land(eq(x.authid, self.granted[0]), eq(x.authrole, self.granted[1])),
                         "session details name the granted authid and authrole")
        ab = c.call(self.a.is_aborted)
        self.chk(("A02",), ab.ok, "is_aborted answers")
        if self.state == "aborted":
            self.chk(("A02",), truth(ab.value), "an aborted acceptor says so")
        elif self.state != "gone":
            self.chk(("A02",), lnot(truth(ab.value)), "an acceptor that was not aborted says so")

    def welcomed(self, reply, authid, authrole):
        c = self.c
        self.chk(("A01",), land(eq(reply.authid, authid), eq(reply.authrole, authrole)),
                 "WELCOME names the granted authid and authrole")
        d = c.call(self.a.get_session_details)
        self.chk(("A01",), land(is_valid_id(reply.session_id), d.ok and eq(d.value.session_id, reply.session_id)),
                 "WELCOME names the acceptor's session ID")
        if self.roles is not None:
            self.chk(("A01",), same(reply.roles, self.roles), "WELCOME announces the server's roles")
        else:
            self.chk(("A01",), land(c.f(reply.roles.__contains__, "broker"), c.f(reply.roles.__contains__, "dealer")),
                     "WELCOME announces a broker and a dealer unless told otherwise")
        self.welcome = reply
        self.granted = (authid, authrole)
        self.state = "welcomed"
        c.reach("welcome")

    def aborted(self, reply):
        self.chk(("A01",), eq(reply.reason, "wamp.error.authentication_failed"), "ABORT says authentication_failed")
        self.state = "aborted"
        self.c.reach("abort")

    def hello(self, methods, method, extra=None, sk=None, first=True):
        """A HELLO asking for `methods` (the first counts as `method`)."""
        c = self.c
        f = {"realm": c.str("realm"), "roles": c.open("roles", [("caller", {"features": {}})])}
        authid = c.choice("authid", ["given", None] if self.vary else ["given"])
        f["authid"] = c.str("authid") if authid else None
        f["authmethods"] = methods
        f["authextra"] = extra
        key = None
        if method == "cryptosign" and sk is not None:
            key = public_hex(sk)
            f["authextra"] = c.open("authextra", [("pubkey", key)])
        before = {k: snap(v) for k, v in f.items()}
        m = build(c, "Hello", f)
        state = self.state
        fresh = state == "start"
        keep = self.hello_
        if fresh or state == "gone":
            self.hello_ = (method, before, key)
        n = len(self.consulted)
        o = self.give(m)
        asked = self.consulted[n:]
        for q in asked:
            self.judge(q[0], method, before, key)
        reply = o.value if o.ok else None
        kind = type(reply).__name__ if o.ok else "raise"
        if kind == "Welcome":
            if self.authenticated:
                self.chk(("A01",), method == "anonymous" and len(asked) == 1 and asked[0][1],
                         "HELLO alone is answered WELCOME only for an accepted anonymous client")
        self.chk(("A02",), kind in ("Welcome", "Abort", "Challenge", "raise", "NoneType"), "HELLO is answered or refused")
        if not fresh and state != "gone":
            self.chk(("A02",), kind not in ("Welcome", "Challenge"), "only the first HELLO is answered")
            if state in ("welcomed", "challenged"):
                self.chk(("A02",), not o.ok, "a further HELLO is refused")
            self.chk(("A07",), not asked, "the authenticator is not consulted for a further HELLO")
            self.hello_ = keep
            c.reach("second hello")
            return kind
        if not self.authenticated:
            self.chk(("A01", "A02"), kind == "Welcome", "without authenticator everyone is welcome")
            if kind == "Welcome":
                self.welcomed(reply, reply.authid, reply.authrole)
            return kind
        if state == "gone":
            if kind != "raise":
                c.assume(False)  # a HELLO after a refused one: unspecified whether it counts
            return kind
        if method == "unknown" or method == "cryptosign" and key is None:
            self.chk(("A01",), kind not in ("Welcome", "Challenge"), "a HELLO without usable method is not answered")
            self.chk(("A02",), kind == "Abort" or o.raised(ValueError),
                     "a HELLO without usable method is aborted or refused with ValueError")
            self.state = "aborted" if kind == "Abort" else "gone"
            c.reach("unusable")
            return kind
        if method == "ticket":
            self.chk(("A01", "A02"), kind == "Challenge", "a ticket client is challenged")
            self.issued = Issued(method, None, None, None)
        else:
            self.chk(("A07",), len(asked) == 1, "the authenticator is consulted once")
            if len(asked) != 1:
                if not asked and kind == "Challenge":
                    self.unjudged(method, reply, sk)
                c.assume(False)
            ok = asked[0][1]
            if not ok:
                self.chk(("A01",), kind == "Abort", "a refused client gets ABORT")
                if kind == "Abort":
                    self.aborted(reply)
                else:
                    c.assume(False)
                return kind
            if method == "anonymous":
                self.chk(("A01",), kind == "Welcome", "an accepted anonymous client is welcomed")
                if kind != "Welcome":
                    c.assume(False)
                self.welcomed(reply, asked[0][3], asked[0][4])
                return kind
            resp = asked[0][2]
            if method == "wampcra" and not hasattr(resp, "secret"):
                self.chk(("A01",), kind not in ("Welcome", "Challenge"), "without a secret there is no challenge")
                self.state = "aborted" if kind == "Abort" else "gone"
                return kind
            self.chk(("A01", "A02"), kind == "Challenge", "an accepted client is challenged")
            if kind == "Challenge":
                self.issued = Issued(method, c.f(reply.extra.get, "challenge"), asked[0], sk)
        if kind != "Challenge":
            c.assume(False)
        self.state = "challenged"
        c.reach("challenge " + method)
        return kind

    def unjudged(self, method, reply, sk):
        """A challenge for a client nobody has judged yet: no answer leads to WELCOME as long as nobody does."""
        c = self.c
        x = c.f(reply.extra.get, "challenge")
        if method == "cryptosign":
            raw = unhex(c, x)
            s = hexa(c, sk.sign(raw).signature) + x
        else:
            known = [q[2].secret for q in self.before.consulted if q[1] and hasattr(q[2], "secret")] if self.before else []
            s = b64(c, mac(c, (known[0] if known else c.str("secret")).encode(), x))
        o = self.give(build(c, "Authenticate", {"signature": s, "extra": {}}))
        self.chk(("A01",), self.consulted or not (o.ok and type(o.value).__name__ == "Welcome"),
                 "WELCOME only after the authenticator accepted this client's request")

    def judge(self, q, method, f, key, ticket=None):
        """The request shown to the authenticator."""
        if self.focus != "A07":
            return
        c = self.c
        c.check(eq(q.method, method), "the request names the method asked for")
        c.check(eq(q.realm, f["realm"]), "the request names the HELLO's realm")
        c.check(same(q.authid, f["authid"]), "the request names the HELLO's authid")
        if f["authextra"] is None:
            c.check(q.auth_extra is None or c.f(len, q.auth_extra) == 0, "the request has no auth extra if the HELLO had none")
        else:
            c.check(q.auth_extra is not None and same(q.auth_extra, f["authextra"]), "the request carries the HELLO's auth extra")
        if method == "cryptosign":
            c.check(eq(q.public_key, key), "the request carries the announced public key")
        if method == "ticket":
            c.check(eq(q.ticket, ticket), "the request carries the presented ticket")
        c.check(getattr(q, "authrole", None) is None, "the request claims no role")
        c.reach("request " + method)

    def proof(self, kinds=None):
        """A signature and the formula that it proves the identity (None for ticket)."""
        c = self.c
        i = self.issued
        if i is None or i.method == "ticket":
            return c.str("signature"), None
        if i.method == "wampcra":
            k = c.choice("signature", kinds or ["masked", "short", "text", "other key", "replayed"])
            secret = i.response[2].secret
            if k == "masked":
                s, ok = masked(c, mac(c, secret.encode(), i.challenge))
                return b64(c, s), ok
            if k == "short":
                return b64(c, c.bytes("raw", c.choice("n", [0, 1, 31, 33]))), False
            if k == "text":
                return c.choice("text", BAD_TEXT[:6] + ["00" * 32]), False
            if k == "other key":
                other = c.str("other secret")
                return b64(c, mac(c, other.encode(), i.challenge)), eq(other, secret)
            old = c.w.auth.generate_wampcra_challenge(c.id("old session"), i.response[3], i.response[4], "dynamic")
            return b64(c, mac(c, secret.encode(), old)), eq(old, i.challenge)
        k = c.choice("signature", kinds or ["masked", "short", "text", "other key", "replayed", "longer"])
        raw = unhex(c, i.challenge)
        if k == "masked":
            s, ok = masked(c, i.key.sign(raw).signature)
            return hexa(c, s) + i.challenge, ok
        if k == "short":
            return hexa(c, c.bytes("raw", c.choice("n", [0, 1, 32, 63]))), False
        if k == "text":
            return c.choice("text", BAD_TEXT), False
        if k == "other key":
            sk = signing_key(c, "other seed")
            return hexa(c, sk.sign(raw).signature) + i.challenge, eq(public_hex(sk), public_hex(i.key))
        if k == "longer":
            msg = c.choice("message", [b"", b"x" * 31, b"x" * 33])
            return hexa(c, i.key.sign(msg).signature) + binascii.hexlify(msg).decode(), False
        old = c.bytes("old challenge", 32)
        return hexa(c, i.key.sign(old).signature) + hexa(c, old), eq(old, raw)

    def authenticate(self, kinds=None):
        c = self.c
        s, ok = self.proof(kinds)
        m = build(c, "Authenticate", {"signature": s, "extra": c.open("extra")})
        i, state = self.issued, self.state
        n = len(self.consulted)
        o = self.give(m)
        asked = self.consulted[n:]
        kind = type(o.value).__name__ if o.ok else "raise"
        if i is not None and i.method == "ticket":
            for q in asked:
                self.judge(q[0], "ticket", self.hello_[1], None, s)
            ok = len(asked) == 1 and asked[0][1]
        elif asked:
            self.chk(("A07",), False, "the authenticator is consulted once")
        if kind == "Welcome":
            self.chk(("A01",), i is not None, "AUTHENTICATE leads to WELCOME only after a CHALLENGE")
            self.chk(("A01",), ok if i is not None else True, "WELCOME only on the right proof")
        if state != "challenged":
            if state != "gone":
                self.chk(("A02",), kind not in ("Welcome", "Challenge", "Abort"), "AUTHENTICATE only counts directly after CHALLENGE")
                self.chk(("A07",), not asked, "the authenticator is only consulted for an expected AUTHENTICATE")
            if state == "welcomed":
                self.chk(("A02",), not o.ok, "after WELCOME AUTHENTICATE is refused")
            c.reach("unexpected authenticate")
            return kind
        if i.method == "ticket":
            self.chk(("A07",), len(asked) == 1, "the authenticator is consulted once")
            if len(asked) != 1:
                c.assume(False)
        self.chk(("A02",), kind in ("Welcome", "Abort"), "AUTHENTICATE after CHALLENGE is answered WELCOME or ABORT")
        self.chk(("A01",), kind == "Welcome" if ok is True else kind == "Abort" if ok is False else
                 ok if kind == "Welcome" else land(lnot(ok), kind == "Abort"),
                 "the right proof is answered WELCOME, any other ABORT")
        if kind == "Welcome":
            q = asked[0] if i.method == "ticket" else i.response
            if len(q) < 5:
                c.assume(False)
            self.welcomed(o.value, q[3], q[4])
        elif kind == "Abort":
            self.aborted(o.value)
        else:
            c.assume(False)
        return kind

    def abort(self):
        c = self.c
        m = build(c, "Abort", {"details": c.open("details"), "reason": c.str("reason"), **arguments(c)})
        state = self.state
        n = len(self.consulted)
        o = self.give(m)
        kind = type(o.value).__name__ if o.ok else "raise"
        self.chk(("A01", "A02"), kind not in ("Welcome", "Challenge"), "ABORT is not answered with WELCOME or CHALLENGE")
        self.chk(("A07",), len(self.consulted) == n, "the authenticator is not consulted on ABORT")
        if state == "welcomed":
            self.chk(("A02",), not o.ok, "after WELCOME every message is refused")
        else:
            self.chk(("A02",), o.ok or state == "aborted", "ABORT is accepted")
            self.state = "aborted"
        c.reach("received abort")
        return kind

    def other(self, classes=OTHERS):
        c = self.c
        cls = c.choice("other", classes)
        n = len(self.consulted)
        o = self.give(message(c, cls))
        self.chk(("A02",), not o.ok, f"{cls} is refused during the handshake")
        self.chk(("A01",), not o.ok or type(o.value).__name__ not in ("Welcome", "Challenge"), f"{cls} leads nowhere")
        self.chk(("A02",), o.raised(ValueError) or self.state == "welcomed", f"{cls} is refused with ValueError")
        self.chk(("A07",), len(self.consulted) == n, "the authenticator is only consulted for HELLO and AUTHENTICATE")
        c.reach("other")

    def ask(self, methods=METHODS, more=False):
        """A HELLO for one of the methods (or without, or with an unknown one)."""
        c = self.c
        m = c.choice("method", list(methods))
        if m == "unknown":
            u = c.str("unknown method")
            c.assume(land(*[lnot(eq(u, x)) for x in METHODS]))
            return self.hello([u], m)
        if m == "none":
            return self.hello(c.choice("no methods", [None, []]), "anonymous")
        L = [m]
        if more and c.choice("second", [False, True]):
            L.append(c.str("second method"))
        if m == "cryptosign":
            if "unknown" in methods and c.choice("pubkey", ["given", "absent"]) == "absent":
                return self.hello(L, m, c.choice("extra", [None, {}]))
            return self.hello(L, m, None, signing_key(c))
        x = c.choice("extra", [None, {}, "some"]) if more else None
        return self.hello(L, m, c.dict("authextra") if x == "some" else x)
