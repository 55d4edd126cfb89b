"""An honest client and server always agree on the session."""
import hashlib

from .common import Harness, eq, is_valid_id, land, lnot
from .handshake import METHODS, b64, hexa, public_hex, signing_key
from .s01 import CODECS, serializer


def join(c, method, salted, codecs, keylens, rounds=1):
    auth = c.w.auth
    codec = c.choice("codec", codecs)
    authid = c.str("authid")
    grants = []
    x = c.choice("extra", [None, "some"])
    extra = c.mkdict([("x", c.str("extra value"))]) if x else None
    seen = []
    if method == "ticket":
        t = c.str("ticket")
        client = auth.TicketAuthenticator(authid, t, extra)
    elif method == "anonymous":
        client = auth.AnonymousAuthenticator(authid, extra)
    elif method == "wampcra":
        secret = c.str("secret")
        client = auth.WAMPCRAAuthenticator(authid, secret, extra)
    else:
        seed = c.bytes("private key", 32)
        client = auth.CryptoSignAuthenticator(authid, hexa(c, seed), extra)
        public = public_hex(signing_key_of(c, seed))

    class Authenticator(auth.IServerAuthenticator):
        """Accepts exactly this client."""

        def methods(self):
            return list(METHODS)

        def authenticate(self, request):
            seen.append(request)
            good = eq(request.authid, authid)
            if method == "ticket":
                good = land(good, eq(request.ticket, t))
            if method == "cryptosign":
                good = land(good, eq(request.public_key, public))
            granted, role = grants[-1]
            if not good:
                raise PermissionError("not this client")
            if method == "wampcra":
                if not salted:
                    return auth.WAMPCRAResponse(granted, role, secret)
                salt, it = c.str("salt"), c.int("iterations", 1, 300000)
                n = c.choice("keylen", keylens)
                key = c.f(hashlib.pbkdf2_hmac, "sha256", secret.encode(), salt.encode(), it, n)
                return auth.WAMPCRASaltedResponse(granted, role, b64(c, key), salt, it, n)
            return auth.Response(granted, role)

    server = Authenticator()
    for n in range(rounds):
        grants.append((c.str("granted authid"), c.str("granted role")))
        shake(c, codec, method, client, server, *grants[-1])
    c.reach("joined")


def shake(c, codec, method, client, server, granted, role):
    realm = c.str("realm")
    sc, ss = (serializer(c, codec), serializer(c, codec)) if codec else (None, None)
    if codec is None:
        j = c.w.joiner.Joiner(realm, authenticator=client)
        a = c.w.acceptor.Acceptor(authenticator=server)
    else:
        j = c.w.joiner.Joiner(realm, sc, client)
        a = c.w.acceptor.Acceptor(ss, server)
    o = c.call(j.send_hello)
    c.check(o.ok, "the client says HELLO")
    up = o.value
    done = False
    for i in range(2):
        o = c.call(a.receive, up)
        c.check(o.ok and o.value[0] is not None, "the server answers")
        down, final = o.value
        o = c.call(j.receive, down)
        c.check(o.ok, "the client accepts the answer")
        up = o.value
        if up is None:
            done = True
            c.check(final, "the server considers the handshake over")
            break
        c.check(lnot(final), "the server waits for the client's answer")
    c.check(done, "the handshake ends after at most one CHALLENGE")
    c.check(i == (0 if method == "anonymous" else 1), "there is a CHALLENGE exactly when the method needs one")
    d, e = c.call(j.get_session_details), c.call(a.get_session_details)
    c.check(d.ok, "the client has joined")
    c.check(e.ok, "the server has a session")
    d, e = d.value, e.value
    c.check(eq(d, e), "both sides report equal session details")
    c.check(land(eq(d.session_id, e.session_id), is_valid_id(d.session_id)), "both sides name the same session ID")
    for s in (d, e):
        c.check(eq(s.realm, realm), "session details name the realm the client asked for")
        c.check(eq(s.authid, granted), "session details name the granted authid")
        c.check(eq(s.authrole, role), "session details name the granted authrole")
    c.check(lnot(c.call(a.is_aborted).value), "the server did not abort")


def signing_key_of(c, seed):
    import nacl.signing

    return c.f(nacl.signing.SigningKey, seed)


def nobody(c, codecs):
    """A client without credentials and a server without authenticator."""
    codec = c.choice("codec", codecs)
    realm = c.str("realm")
    if codec is None:
        j, a = c.w.joiner.Joiner(realm), c.w.acceptor.Acceptor()
    else:
        j, a = c.w.joiner.Joiner(realm, serializer(c, codec)), c.w.acceptor.Acceptor(serializer(c, codec))
    o = c.call(a.receive, c.call(j.send_hello).value)
    c.check(o.ok and o.value[1], "the server welcomes the client at once")
    o = c.call(j.receive, o.value[0])
    c.check(o.ok and o.value is None, "the client joins")
    d, e = c.call(j.get_session_details), c.call(a.get_session_details)
    c.check(d.ok and e.ok and eq(d.value, e.value), "both sides report equal session details")
    c.check(eq(d.value.realm, realm), "session details name the realm the client asked for")
    c.reach("joined")


ALL = [None] + list(CODECS)
HARNESSES = [
    Harness(m + ("-salted" if s else ""), join, quick={"method": m, "salted": s, "codecs": ALL, "keylens": [1, 16, 32, 33, 64]},
            thorough={"method": m, "salted": s, "codecs": ALL, "keylens": list(range(1, 65))}, labels=["joined"],
            bounds="any texts, with each serializer and with the default one, with and without auth extra"
                   + (", five key lengths (thorough 1 to 64), up to 300000 iterations" if s else ""))
    for m, s in [(m, False) for m in METHODS] + [("wampcra", True)]
] + [
    Harness(m + "-again", join, quick={"method": m, "salted": s, "codecs": [None], "keylens": [32], "rounds": 2},
            thorough={"method": m, "salted": s, "codecs": ALL, "keylens": [1, 32], "rounds": 3}, labels=["joined"],
            bounds="2 (thorough 3) handshakes one after the other of the same client and server, any texts")
    for m, s in [(m, m == "wampcra") for m in METHODS]
] + [Harness("nobody", nobody, quick={"codecs": ALL}, thorough={"codecs": ALL}, labels=["joined"],
             bounds="no authenticators on either side, with each serializer")]
ASSUMPTIONS = [
    "json, cbor2 and msgpack are replaced by their contract (see S01)",
    "HMAC-SHA256, PBKDF2 and Ed25519 are ideal: deterministic, without collisions, one signature per key and message",
    "a server using salted WAMP-CRA keeps the derived key (base64) as the secret",
]
