"""Challenges are fresh and unpredictable."""
import json

from .common import Harness, eq, implies, land
from .handshake import unhex
from .wire import build

BITS = 128


def secure(draws):
    """The draws that make up a challenge: the byte strings of the secure source, or all its draws if those are too few."""
    ds = [d for d in draws if d[0] == "system"]
    big = [d for d in ds if d[2] >= 1 << BITS]
    return big if big else ds


def size(draws):
    n = 1
    for d in draws:
        n *= d[2]
    return n


def judged(c, made):
    """made: [(challenge, what tells them apart, draws made for it)]"""
    for x, parts, ds in made:
        c.check(size(ds) >= 1 << BITS, "a challenge takes at least 128 bits of the system's secure random source")
    for i, (x, px, dx) in enumerate(made):
        for y, py, dy in made[:i]:
            if len(dx) != len(dy):
                continue
            same = land(*[eq(a[1], b[1]) for a, b in zip(dx, dy)])
            c.check(implies(eq(px, py), same), "two challenges are only equal if the random source repeats itself")


def drawn(c, f):
    n = len(c.draws())
    o = c.call(f)
    c.check(o.ok, "a challenge is made")
    return o.value, secure(c.draws()[n:])


def generators(c, n):
    """The public functions that make challenges."""
    auth = c.w.auth
    kind = c.choice("kind", ["cryptosign", "wampcra"])
    made = []
    sid, authid, role, provider = c.id("session"), c.str("authid"), c.str("role"), c.str("provider")
    for _ in range(n):
        if kind == "cryptosign":
            x, ds = drawn(c, auth.generate_cryptosign_challenge)
            part = c.call(unhex, c, x)
            c.check(part.ok and c.f(len, part.value) == 32, "a cryptosign challenge is 32 bytes in hex")
            part = part.value
        else:
            x, ds = drawn(c, lambda: auth.generate_wampcra_challenge(sid, authid, role, provider))
            part = c.f(c.f(json.loads, x).get, "nonce")
        made.append((x, part, ds))
    judged(c, made)
    c.reach(kind)


def handshakes(c, n):
    """The challenges of several handshakes with one server."""
    auth = c.w.auth
    kind = c.choice("kind", ["cryptosign", "wampcra"])
    authid, role, secret, pk = c.str("authid"), c.str("role"), c.str("secret"), "ab" * 32

    class Authenticator(auth.IServerAuthenticator):
        def authenticate(self, request):
            return auth.Response(authid, role) if kind == "cryptosign" else auth.WAMPCRAResponse(authid, role, secret)

    server = Authenticator()
    acceptors = [c.w.acceptor.Acceptor(authenticator=server) for _ in range(n)]
    hello = {"realm": c.str("realm"), "roles": {"caller": {}}, "authid": c.str("user"), "authmethods": [kind],
             "authextra": {"pubkey": pk}}
    made = []
    for a in acceptors:
        m, ds = drawn(c, lambda: a.receive_message(build(c, "Hello", hello)))
        c.check(type(m).__name__ == "Challenge", "the client is challenged")
        x = c.f(m.extra.get, "challenge")
        part = unhex(c, x) if kind == "cryptosign" else c.f(c.f(json.loads, x).get, "nonce")
        made.append((x, part, ds))
    judged(c, made)
    c.reach(kind)


def session_ids(c, n):
    """Session IDs are drawn over the whole range."""
    auth = c.w.auth

    class Authenticator(auth.IServerAuthenticator):
        def authenticate(self, request):
            return auth.Response("authid", "role")

    def welcomed(a):
        return lambda: c.w.acceptor.Acceptor(authenticator=a).receive_message(build(c, "Hello", {
            "realm": "realm", "roles": {"caller": {}}, "authid": "user", "authmethods": ["anonymous"]})).session_id

    g = {"generator": c.w.idgen.generate_session_id, "open door": welcomed(None), "anonymous": welcomed(Authenticator())}[
        c.choice("from", ["generator", "open door", "anonymous"])]
    made = []
    for _ in range(n):
        k = len(c.draws())
        o = c.call(g)
        c.check(o.ok, "a session ID is generated")
        made.append((o.value, c.draws()[k:]))
    for x, dx in made:
        c.check(size(dx) >= 1 << 53, "a session ID is drawn over all of 1..2^53")
    for i, (x, dx) in enumerate(made):
        for y, dy in made[:i]:
            if len(dx) == len(dy):
                c.check(implies(eq(x, y), land(*[eq(a[1], b[1]) for a, b in zip(dx, dy)])),
                        "two session IDs are only equal if the random source repeats itself")
    c.reach("drawn")


HARNESSES = [
    Harness("generators", generators, quick={"n": 3}, thorough={"n": 8}, labels=["cryptosign", "wampcra"],
            bounds="3 (thorough 8) challenges made in one process, every outcome of the random source"),
    Harness("handshakes", handshakes, quick={"n": 2}, thorough={"n": 5}, labels=["cryptosign", "wampcra"],
            bounds="2 (thorough 5) handshakes with one server, every outcome of the random source"),
    Harness("session-ids", session_ids, quick={"n": 3}, thorough={"n": 8}, labels=["drawn"],
            bounds="3 (thorough 8) session IDs, from the generator or of welcomed clients, every outcome of the random source"),
]
ASSUMPTIONS = [
    "os.urandom, secrets, random.SystemRandom and nacl's random bytes are secure; the module random is not",
    "a draw of the random source may have any value, independent of the others",
]
