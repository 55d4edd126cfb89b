"""RawSocket frame headers."""
from .common import Harness, eq, land


def roundtrip(c):
    R = c.w.transports_rawsocket
    kind = c.bv("kind", 8)
    length = c.bv("length", 24)
    o = c.call(R.MessageHeader(kind, length).to_bytes)
    c.check(o.ok, "a header for a length below 2^24 can be encoded")
    b = o.value
    c.check(c.f(isinstance, b, bytes) and c.f(len, b) == 4, "a header is exactly four bytes")
    c.check(land(eq(b[0], kind), eq(b[1], length >> 16), eq(b[2], (length >> 8) & 0xFF), eq(b[3], length & 0xFF)),
            "header is kind then big-endian length")
    d = c.call(R.MessageHeader.from_bytes, b)
    c.check(d.ok, "an encoded header can be decoded")
    c.check(eq(d.value.kind, kind), "kind survives the round trip")
    c.check(eq(d.value.length, length), "length survives the round trip")
    c.reach("round trip")


def decode(c):
    R = c.w.transports_rawsocket
    b = c.bytes("frame", 4)
    d = c.call(R.MessageHeader.from_bytes, b)
    c.check(d.ok, "any four bytes decode as a header")
    c.check(eq(d.value.kind, b[0]), "the decoded kind is the first byte")
    n = d.value.length
    c.check(land(eq(n >> 16, b[1]), eq((n >> 8) & 0xFF, b[2]), eq(n & 0xFF, b[3])),
            "the decoded length is the next three bytes")
    e = c.call(d.value.to_bytes)
    c.check(e.ok and eq(e.value, b), "encoding a decoded header gives the same bytes")
    c.reach("decoded")


def oversize(c, bits):
    R = c.w.transports_rawsocket
    kind = c.bv("kind", 8)
    length = c.sbv("length", bits)
    c.assume((length < 0) | (length >= 1 << 24))
    o = c.call(R.MessageHeader(kind, length).to_bytes)
    c.check(o.raised(ValueError), "a length that does not fit in 24 bits is refused with ValueError")
    c.reach("refused")


def oversize_int(c):
    R = c.w.transports_rawsocket
    kind = c.int("kind", 0, 255)
    length = c.int("length")
    c.assume((length < 0) | (length >= 1 << 24))
    o = c.call(R.MessageHeader(kind, length).to_bytes)
    c.check(o.raised(ValueError), "a length that does not fit in 24 bits is refused with ValueError")
    c.reach("refused")


HARNESSES = [
    Harness("roundtrip", roundtrip, labels=["round trip"], bounds="all 256 kinds x all 2^24 lengths",
            about="MessageHeader.to_bytes and from_bytes"),
    Harness("decode", decode, labels=["decoded"], bounds="all 2^32 frames"),
    Harness("oversize", oversize, quick={"bits": 64}, thorough={"bits": 1024}, labels=["refused"],
            bounds="all signed 64-bit (thorough: 1024-bit) lengths outside 0..2^24-1"),
    Harness("oversize-int", oversize_int, labels=["refused"], bounds="all integers outside 0..2^24-1"),
]
