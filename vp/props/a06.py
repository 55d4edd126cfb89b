"""Cryptosign verification accepts exactly valid signatures."""
import nacl.signing

from .common import Harness, eq, land, lnot
from .handshake import BAD_TEXT, hexa, masked, public_hex, signing_key, unhex
from .wire import build


def verify(c, lengths, short, chars, tails):
    """Every signature string of several shapes."""
    v = c.w.auth.verify_cryptosign_signature
    sk = signing_key(c)
    pk = unhex(c, public_hex(sk))
    msg = c.bytes("message", c.choice("length", lengths))
    expected = c.choice("expected", ["none", "given"])
    challenge = None if expected == "none" else c.bytes("challenge", 32)
    goal = True if challenge is None else eq(msg, challenge)
    k = c.choice("signature", ["masked", "short", "cut", "longer", "text", "chars", "other key", "other message"])
    if k == "masked":
        s, ok = masked(c, sk.sign(msg).signature)
        s, ok = hexa(c, s) + hexa(c, msg), land(ok, goal)
    elif k == "short":
        s, ok = hexa(c, c.bytes("raw", c.choice("n", short))), False
    elif k == "cut":
        s, ok = (hexa(c, sk.sign(msg).signature) + hexa(c, msg))[: c.choice("chars left", [127, 126, 65, 64, 63, 1])], False
    elif k == "longer":
        tail = hexa(c, c.bytes("tail", c.choice("tail length", tails))) if c.choice("tail", ["hex", "text"]) == "hex" else c.choice("text", [" ", "\n", "0", "=", "g"])
        s, ok = hexa(c, sk.sign(msg).signature) + hexa(c, msg) + tail, False
    elif k == "text":
        s, ok = c.choice("text", BAD_TEXT + ["\udc80", "é" * 128, "zz" * 64, "0" * 127, "z" + "0" * 127, "0x" + "0" * 126]), False
    elif k == "chars":
        s, ok = c.chars("chars", c.choice("n", list(range(chars + 1)))), False
    elif k == "other key":
        other = signing_key(c, "other seed")
        t = other.sign(msg).signature
        s, ok = hexa(c, t) + hexa(c, msg), land(eq(t, sk.sign(msg).signature), goal)
    else:
        signed = c.bytes("signed", c.choice("signed length", lengths))
        t = sk.sign(signed).signature
        s, ok = hexa(c, t) + hexa(c, msg), land(eq(signed, msg), goal)
    if challenge is None:
        o = c.call(v, s, pk) if c.choice("argument", ["left out", "None"]) == "left out" else c.call(v, s, pk, None)
    else:
        o = c.call(v, s, pk, hexa(c, challenge))
    c.check(o.ok, "verification does not raise")
    if o.value:
        c.check(ok, "only a valid signature verifies")
        c.reach("accepted")
    else:
        c.check(lnot(ok), "a valid signature verifies")
        c.reach("rejected")
    c.reach(k)


def client(c):
    """A client's answer verifies under the key it announces."""
    auth = c.w.auth
    seed = c.bytes("private key", 32)
    public = public_hex(c.f(nacl.signing.SigningKey, seed))
    x = c.choice("extra", ["absent", None, {}, "other", "explicit"])
    extra = c.open("extra", [("k", c.any("extra", depth=0))], ["pubkey"]) if x == "other" else c.open("extra", [("pubkey", c.str("explicit"))]) if x == "explicit" else x
    a = c.call(auth.CryptoSignAuthenticator, c.str("authid"), hexa(c, seed), *([] if x == "absent" else [extra]))
    c.check(a.ok, "a client can be made from its private key")
    a = a.value
    got = c.f(a.auth_extra.get, "pubkey")
    if x == "explicit":
        c.check(eq(got, c.f(extra.get, "pubkey")), "an explicit public key is announced")
    else:
        c.check(got is not None and eq(got, public), "the client announces the public key of its private key")
    if c.choice("asked before", [False, True]):
        c.call(a.authenticate, build(c, "Challenge", {"authmethod": "cryptosign", "extra": {"challenge": "00" * 32}}))
    how = c.choice("challenge", ["given", "absent", None])
    challenge = hexa(c, c.bytes("challenge", 32))
    y = c.open("challenge extra", [("challenge", challenge)] if how == "given" else [("challenge", None)] if how is None else [],
               ["challenge"])
    o = c.call(a.authenticate, build(c, "Challenge", {"authmethod": "cryptosign", "extra": y}))
    if how != "given":
        c.check(o.raised(ValueError), "a CHALLENGE without a challenge is refused with ValueError")
        c.reach("refused")
        return
    c.check(o.ok and type(o.value).__name__ == "Authenticate", "the client answers with AUTHENTICATE")
    s = o.value.signature
    v = auth.verify_cryptosign_signature
    pk = unhex(c, public)
    r = c.call(v, s, pk, challenge)
    c.check(r.ok and r.value, "the answer verifies under the client's public key for the challenge")
    r = c.call(v, s, pk)
    c.check(r.ok and r.value, "the answer verifies under the client's public key")
    other = c.bytes("other challenge", 32)
    c.assume(lnot(eq(hexa(c, other), challenge)))
    r = c.call(v, s, pk, hexa(c, other))
    c.check(r.ok and not r.value, "the answer does not verify for another challenge")
    c.reach("answered")


def several(c):
    """Clients made from the same auth extra."""
    auth = c.w.auth
    extra = c.choice("extra", [{}, {"k": 1}, None])
    seeds = [c.bytes("private key", 32), c.bytes("private key", 32)]
    cs = [auth.CryptoSignAuthenticator("u", hexa(c, s), extra) for s in seeds]
    for a, s in zip(cs, seeds):
        c.check(eq(c.f(a.auth_extra.get, "pubkey"), public_hex(c.f(nacl.signing.SigningKey, s))),
                "each client announces the public key of its own private key")
    c.reach("several")


def generated(c):
    g = c.w.auth.generate_cryptosign_challenge
    o = c.call(g)
    c.check(o.ok and c.f(len, o.value) == 64, "a challenge has 64 hex digits")
    raw = c.call(unhex, c, o.value)
    c.check(raw.ok and c.f(len, raw.value) == 32, "a challenge is 32 bytes in hex")
    import sys

    m = sys.modules[g.__module__]
    if hasattr(m, "generate_cryptosign_keypair"):
        public, private = m.generate_cryptosign_keypair()
        a = c.w.auth.CryptoSignAuthenticator("u", private)
        c.check(eq(c.f(a.auth_extra.get, "pubkey"), public), "a generated key pair belongs together")
        k = a.authenticate(build(c, "Challenge", {"authmethod": "cryptosign", "extra": c.mkdict([("challenge", o.value)])}))
        v = c.call(c.w.auth.verify_cryptosign_signature, k.signature, unhex(c, public), o.value)
        c.check(v.ok and v.value, "what is signed with a generated private key verifies with its public key")
    c.reach("generated")


HARNESSES = [
    Harness("verify", verify, quick={"lengths": [0, 32], "short": [0, 1, 63], "chars": 3, "tails": [1, 32]},
            thorough={"lengths": [0, 1, 31, 32, 33, 64], "short": list(range(64)), "chars": 6, "tails": [1, 2, 31, 32, 33, 64]},
            labels=["masked", "short", "cut", "longer", "text", "chars", "other key", "other message", "accepted", "rejected"],
            bounds="any key, any message of 0 or 32 (thorough 0 to 64) bytes, with and without expected challenge; signatures: the "
                   "right one with any bits flipped, cut off, longer, of another key or message, hex of fewer than 64 bytes, any ASCII "
                   "text of up to 3 (thorough 6) characters, selected other texts"),
    Harness("client", client, labels=["answered", "refused"], bounds="any private key and 32-byte challenge"),
    Harness("several", several, labels=["several"], bounds="two clients with any private keys and one auth extra"),
    Harness("generated", generated, labels=["generated"], bounds="every outcome of the random source"),
]
ASSUMPTIONS = [
    "Ed25519 is ideal: one signature per key and message, different keys give different public keys",
    "the public key has 32 bytes and an expected challenge is hex",
]
