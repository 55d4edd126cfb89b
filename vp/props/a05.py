"""WAMP-CRA verification accepts exactly the right signature."""
import base64
import hashlib
import json

from .common import Harness, eq, lnot
from .handshake import BAD_TEXT, b64, mac, masked
from .wire import build


def key_of(c, how):
    if how == "text":
        return c.str("key").encode()
    return c.bytes("key", how)


def verify(c, keys, lengths, chars):
    """Every signature string of several shapes."""
    v = c.w.auth.verify_wampcra_signature
    kind = c.choice("key kind", keys)
    key = key_of(c, kind)
    challenge = c.str("challenge")
    right = mac(c, key, challenge)
    k = c.choice("signature", ["masked", "raw", "cut", "text", "chars", "other key", "other challenge"])
    if k == "masked":
        s, ok = masked(c, right)
        s = b64(c, s)
    elif k == "raw":
        s, ok = b64(c, c.bytes("raw", c.choice("n", lengths))), False
    elif k == "cut":
        s, ok = b64(c, right)[: c.choice("chars left", [43, 42, 41, 40, 20, 4, 1])], False
    elif k == "text":
        s, ok = c.choice("text", BAD_TEXT[:6] + ["\udc80", "A" * 45, "=" * 44, "é" * 44, "\0" * 44]), False
    elif k == "chars":
        s, ok = c.chars("chars", c.choice("n", list(range(chars + 1)))), False
    elif k == "other key":
        other = key_of(c, kind)
        m = mac(c, other, challenge)
        s, ok = b64(c, m), eq(m, right)
    else:
        other = c.str("other challenge")
        s, ok = b64(c, mac(c, key, other)), eq(other, challenge)
    o = c.call(v, s, challenge, key)
    c.check(o.ok, "verification does not raise")
    if o.value:
        c.check(ok, "only the right signature verifies")
        c.reach("accepted")
    else:
        c.check(lnot(ok), "the right signature verifies")
        c.reach("rejected")
    c.reach(k)


def sign(c):
    """What signing gives, verifies, and is the encoded HMAC."""
    auth = c.w.auth
    key = key_of(c, c.choice("key kind", ["text", 0, 32]))
    challenge = c.str("challenge")
    o = c.call(auth.sign_wampcra_challenge, challenge, key)
    c.check(o.ok and eq(o.value, b64(c, mac(c, key, challenge))), "a signature is the base64 form of the challenge's HMAC")
    v = c.call(auth.verify_wampcra_signature, o.value, challenge, key)
    c.check(v.ok and v.value, "a signature made for the challenge verifies")
    c.reach("signed")


def client(c, keylens, iterations):
    """A client's answer to any challenge."""
    auth = c.w.auth
    secret, challenge = c.str("secret"), c.str("challenge")
    a = auth.WAMPCRAAuthenticator(c.str("authid"), secret)
    pairs = [("challenge", challenge)]
    salt = c.choice("salt", ["absent", None, "given"])
    it, n = None, None
    if salt == "given":
        salt = c.str("salt")
        pairs.append(("salt", salt))
    else:
        pairs += [("salt", None)] if salt is None else []
        salt = None
    if c.choice("iterations given", [True, False]):
        it = c.int("iterations", 0, iterations)
        pairs.append(("iterations", it))
    if c.choice("keylen given", [True, False]):
        n = c.choice("keylen", keylens)
        pairs.append(("keylen", n))
    x = c.open("extra", pairs, ["salt", "iterations", "keylen"])
    order = c.choice("asked before", [False, True])
    if order:
        c.call(a.authenticate, build(c, "Challenge", {"authmethod": "wampcra", "extra": {
            "challenge": "other", "salt": "s", "iterations": 1, "keylen": 1}}))
    o = c.call(a.authenticate, build(c, "Challenge", {"authmethod": "wampcra", "extra": x}))
    if salt is None:
        key = secret.encode()
        c.reach("plain")
    else:
        zero = it is None or n is None or n == 0
        bad = True if zero else eq(it, 0)
        if not o.ok:
            c.check(bad, "complete derivation parameters are accepted")
            c.check(o.raised(ValueError), "missing or zero derivation parameters are refused with ValueError")
            c.reach("refused")
            return
        c.check(lnot(bad), "missing or zero derivation parameters are refused")
        key = c.f(base64.b64encode, c.f(hashlib.pbkdf2_hmac, "sha256", secret.encode(), salt.encode(), it, n))
        c.reach("salted")
    c.check(o.ok, "the client answers the challenge")
    c.check(type(o.value).__name__ == "Authenticate", "the client answers with AUTHENTICATE")
    c.check(eq(o.value.signature, b64(c, mac(c, key, challenge))), "the client signs with its secret or the key derived from it")


def issued(c):
    """What the server's challenge says."""
    sid, authid, role, provider = c.id("session"), c.str("authid"), c.str("authrole"), c.str("provider")
    o = c.call(c.w.auth.generate_wampcra_challenge, sid, authid, role, provider)
    c.check(o.ok, "a challenge is made")
    d = c.f(json.loads, o.value)
    for k, v in (("session", sid), ("authid", authid), ("authrole", role), ("authmethod", "wampcra"), ("authprovider", provider)):
        c.check(c.f(d.__contains__, k) and eq(c.f(d.get, k), v), f"the challenge names the {k}")
    for k in ("nonce", "timestamp"):
        c.check(c.f(d.__contains__, k) and c.f(len, c.f(d.get, k)) > 0, f"the challenge has a {k}")
    c.reach("issued")


def offered(c):
    """The challenge an acceptor sends, plain or salted."""
    auth = c.w.auth
    authid, role, secret, salt, it, n = (c.str("authid"), c.str("authrole"), c.str("secret"), c.str("salt"),
                                         c.int("iterations", 1), c.int("keylen", 1))
    salted = c.choice("salted", [False, True])

    class Authenticator(auth.IServerAuthenticator):
        def authenticate(self, request):
            return auth.WAMPCRASaltedResponse(authid, role, secret, salt, it, n) if salted else \
                auth.WAMPCRAResponse(authid, role, secret)

    a = c.w.acceptor.Acceptor(authenticator=Authenticator())
    o = c.call(a.receive_message, build(c, "Hello", {"realm": c.str("realm"), "roles": {"caller": {}}, "authid": c.str("user"), "authextra": c.lazy("authextra", "dict"),
                                                     "authmethods": ["wampcra"]}))
    c.check(o.ok and type(o.value).__name__ == "Challenge", "the client is challenged")
    m = o.value
    c.check(eq(m.authmethod, "wampcra"), "the CHALLENGE names wampcra")
    x = m.extra
    d = c.f(json.loads, c.f(x.get, "challenge"))
    for k, v in (("authid", authid), ("authrole", role), ("authmethod", "wampcra")):
        c.check(c.f(d.__contains__, k) and eq(c.f(d.get, k), v), f"the challenge names the {k}")
    for k, v in (("salt", salt), ("iterations", it), ("keylen", n)):
        if salted:
            c.check(c.f(x.__contains__, k) and eq(c.f(x.get, k), v), f"the CHALLENGE carries the {k}")
        else:
            c.check(not c.f(x.__contains__, k) or c.f(x.get, k) is None, f"the CHALLENGE carries no {k}")
    key = secret.encode()
    o = c.call(a.receive_message, build(c, "Authenticate", {"signature": b64(c, mac(c, key, c.f(x.get, "challenge"))), "extra": c.open("extra")}))
    c.check(o.ok and type(o.value).__name__ == "Welcome", "the right signature is welcomed")
    c.check(eq(c.f(d.get, "session"), o.value.session_id), "the challenge names the session ID")
    c.reach("salted" if salted else "plain")




HARNESSES = [
    Harness("verify", verify, quick={"keys": ["text", 32], "lengths": [0, 1, 31, 33], "chars": 4},
            thorough={"keys": ["text", 0, 1, 32, 64], "lengths": [0, 1, 2, 3, 16, 30, 31, 33, 34, 48, 64], "chars": 7},
            labels=["masked", "raw", "cut", "text", "chars", "other key", "other challenge", "accepted", "rejected"],
            bounds="any challenge, any key (text, or 32 bytes; thorough 0 to 64); signatures: the right one with any bits flipped, "
                   "cut off, of another key or challenge, base64 of other lengths, any ASCII text of up to 4 (thorough 7) "
                   "characters, selected other texts"),
    Harness("sign", sign, labels=["signed"], bounds="any challenge, keys: any text, 0 or 32 bytes"),
    Harness("client", client, quick={"keylens": [0, 1, 16, 31, 32, 33, 48, 64, 65], "iterations": 300000},
            thorough={"keylens": list(range(130)), "iterations": 1000000},
            labels=["plain", "salted", "refused"],
            bounds="any secret, challenge and salt, up to 300000 (thorough 1000000) iterations, nine key lengths up to 65 (thorough 0 to 129)"),
    Harness("issued", issued, labels=["issued"], bounds="any session ID, authid, authrole and provider"),
    Harness("offered", offered, labels=["plain", "salted"], bounds="any secret, salt, iterations, key length, authid and authrole"),
]
ASSUMPTIONS = [
    "HMAC-SHA256 and PBKDF2 are ideal: deterministic and without collisions",
    "json is replaced by its contract (see S01)",
    "which non-canonical base64 texts of the right signature (line breaks, padding) are accepted is unspecified",
]
