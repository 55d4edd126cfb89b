"""RawSocket handshake."""
from .common import Harness, eq, land, lor, lnot


def encode(c, bits):
    R = c.w.transports_rawsocket
    proto = c.bv("protocol", 4)
    size = c.bv("size", bits)
    c.assume((size >= 512) & (size < 1 << 25) if bits > 24 else size >= 512)
    o = c.call(R.Handshake(proto, size).to_bytes)
    c.check(o.ok, "a handshake with a size in range can be encoded")
    b = o.value
    c.check(c.f(isinstance, b, bytes) and c.f(len, b) == 4, "a handshake is exactly four bytes")
    c.check(land(eq(b[0], 0x7F), eq(b[2], 0), eq(b[3], 0)), "magic and reserved bytes")
    c.check(eq(b[1] & 0x0F, proto), "the low nibble is the protocol")
    # the exponent: 2^(9+e) <= size < 2^(10+e)
    c.check(land(*[lor(lnot(eq(b[1] >> 4, e)), land(size >= 1 << (9 + e), size < 1 << (10 + e))) for e in range(16)]),
            "the high nibble is the exponent of the largest power of two not above the size, less 9")
    d = c.call(R.Handshake.from_bytes, b)
    c.check(d.ok, "an encoded handshake can be decoded")
    c.check(eq(d.value.protocol, proto), "protocol survives the round trip")
    m = d.value.max_msg_size
    c.check(land(m <= size, size < m * 2, lor(*[eq(m, 1 << k) for k in range(9, 25)])),
            "the decoded size is the largest power of two not above the given one")
    c.reach("round trip")


def refuse(c, bits):
    R = c.w.transports_rawsocket
    proto = c.bv("protocol", 4)
    size = c.sbv("size", bits)
    c.assume((size < 512) | (size >= 1 << 25))
    o = c.call(R.Handshake(proto, size).to_bytes)
    c.check(o.raised(ValueError), "a size outside 512..2^25-1 is refused with ValueError")
    c.reach("refused")


def decode(c, n):
    R = c.w.transports_rawsocket
    b = c.bytes("data", n)
    o = c.call(R.Handshake.from_bytes, b)
    if n != 4:
        c.check(o.raised(ValueError), "anything but four bytes is refused with ValueError")
        c.reach("length")
        return
    good = land(eq(b[0], 0x7F), eq(b[2], 0), eq(b[3], 0))
    if o.ok:
        c.check(good, "only handshakes starting with 0x7F and ending in two zero bytes are accepted")
        c.check(eq(o.value.protocol, b[1] & 0x0F), "decoded protocol is the low nibble")
        c.check(lor(*[land(eq(b[1] >> 4, e), eq(o.value.max_msg_size, 1 << (9 + e))) for e in range(16)]),
                "decoded size is 2^(9+high nibble)")
        c.reach("accepted")
    else:
        c.check(lnot(good), "a well-formed handshake is accepted")
        c.check(o.raised(ValueError), "a malformed handshake is refused with ValueError")
        c.reach("refused")


def decode_lengths(c, upto):
    n = c.choice("n", [k for k in range(upto) if k != 4])
    decode(c, n)


HARNESSES = [
    Harness("encode", encode, quick={"bits": 25}, labels=["round trip"],
            bounds="protocol 0..15 x all sizes 512..2^25-1"),
    Harness("refuse", refuse, quick={"bits": 34}, thorough={"bits": 48}, labels=["refused"],
            bounds="protocol 0..15 x all signed 34-bit (thorough 48-bit) sizes outside 512..2^25-1"),
    Harness("decode4", lambda c: decode(c, 4), labels=["accepted", "refused"], bounds="all 2^32 four-byte inputs"),
    Harness("decode-lengths", decode_lengths, quick={"upto": 9}, thorough={"upto": 70}, labels=["length"],
            bounds="all inputs of 0..8 (thorough 0..69) bytes other than four"),
]
