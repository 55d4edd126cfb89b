"""Serializers round-trip every message."""
from .common import Harness, KINDS, eq, kind, land, lnot, lor, part, same, snap
from .m01 import wire_list
from .m03 import make, session_fields
from .wire import LAYOUT, PLAIN, build, lengths, same_messages, wellformed

CODECS = {"json": "JSONSerializer", "cbor": "CBORSerializer", "msgpack": "MsgPackSerializer"}
INT64 = (-(1 << 63), (1 << 64) - 1)
TEXTUAL = [k for k in KINDS if k != "bytes"]


def serializer(c, codec):
    return getattr(c.w.serializers, CODECS[codec])()


def roundtrip(c, m, codec):
    s = serializer(c, codec)
    if c.choice("used before", [False, True]):
        other = build(c, "Goodbye", {"details": {}, "reason": "wamp.close.normal"})
        c.call(s.deserialize, c.call(s.serialize, other).value)
    o = c.call(s.serialize, m)
    c.check(o.ok, f"a message can be serialized as {codec}")
    c.check(c.f(isinstance, o.value, str if codec == "json" else bytes), "JSON is text, CBOR and MsgPack are bytes")
    d = c.call(serializer(c, codec).deserialize, o.value)
    c.check(d.ok, f"a {codec} serialized message can be deserialized")
    c.check(same_messages(d.value, m), f"the deserialized message equals the {codec} serialized one")
    c.reach(codec)


def plain(c, nargs, depth):
    codec = c.choice("codec", list(CODECS))
    cls = c.choice("class", PLAIN)
    m, f = make(c, cls, nargs, depth, TEXTUAL if codec == "json" else KINDS, INT64)
    roundtrip(c, m, codec)
    c.reach(cls)


def session_message(c, nroles):
    codec = c.choice("codec", list(CODECS))
    cls = c.choice("class", ["Hello", "Welcome"])
    m = build(c, cls, session_fields(c, cls, nroles, ["none", "bool", "str"]))
    roundtrip(c, m, codec)
    c.reach(cls)


def reject(c, extra, depth):
    """Deserializing accepts exactly the well-formed wire values."""
    codec = c.choice("codec", list(CODECS))
    s = serializer(c, codec)
    ks = TEXTUAL if codec == "json" else KINDS
    what = c.choice("input", ["list", "malformed", "other"])
    if what == "malformed":
        o = c.call(s.deserialize, c.malformed(codec))
        c.check(not o.ok, f"input that is not {codec} is rejected")
        c.reach("malformed")
        return
    if what == "other":
        v = c.any("value", [k for k in ks if k != "list"], depth, INT64)
        o = c.call(s.deserialize, c.encoded(codec, v))
        c.check(not o.ok, "a value that is not a list is rejected")
        c.reach("other")
        return
    cls = c.choice("class", PLAIN)
    lo, hi = lengths(cls)
    n = c.choice("n", list(range(max(1, lo - extra), hi + 1 + extra)))
    code, fields, args = LAYOUT[cls]
    L = [code] + [c.any("f", ks, depth, INT64) for _ in range(n - 1)]
    for v, (_, k) in zip(L[1:], fields):
        if k in ("id", "int"):
            c.assume(lnot(kind(v, "bool")))
    good = wellformed(cls, L)
    o = c.call(s.deserialize, c.encoded(codec, L))
    if o.ok:
        c.check(good, f"only a well-formed value is accepted as {cls}")
        c.check(type(o.value).__name__ == cls, "the message is of the class its type code denotes")
        c.reach("accepted")
    else:
        c.check(lnot(good), f"a well-formed {cls} is accepted")
        c.reach("rejected")


def empty(c):
    codec = c.choice("codec", list(CODECS))
    s = serializer(c, codec)
    o = c.call(s.deserialize, c.encoded(codec, []))
    c.check(not o.ok, "the empty list is rejected")
    t = c.int("type", *INT64)
    c.assume(land(*[lnot(eq(t, v[0])) for v in LAYOUT.values()]))
    o = c.call(s.deserialize, c.encoded(codec, [t, 1, c.mkdict([])]))
    c.check(not o.ok, "an unknown message type is rejected")
    t = c.any("type code", [k for k in (TEXTUAL if codec == "json" else KINDS) if k not in ("int", "bool", "float")], 0, INT64)
    o = c.call(s.deserialize, c.encoded(codec, [t] + [c.id("element") for _ in range(c.choice("more", [0, 1, 2]))]))
    c.check(not o.ok, "a type code that is no number is rejected")
    t = c.choice("text", ["48", "1", "1.0", "70 ", "CALL", "0x46"])
    o = c.call(s.deserialize, c.encoded(codec, [t, 1, c.mkdict([]), "name"]))
    c.check(not o.ok, "a type code written as text is rejected")
    o = c.call(s.deserialize, "" if codec == "json" else b"")
    c.check(not o.ok, "empty input is rejected")
    c.reach("rejected")


HARNESSES = [
    Harness("plain", plain, quick={"nargs": 1, "depth": 0}, thorough={"nargs": 2, "depth": 1},
            labels=PLAIN + list(CODECS),
            bounds="3 serializers x 22 message types, all IDs and texts, integers of up to 64 bits, up to 1 (thorough 2) "
                   "positional and 1 keyword argument, dictionaries of up to one entry"),
    Harness("session-message", session_message, quick={"nroles": 1}, thorough={"nroles": 6},
            labels=["Hello", "Welcome"], bounds="3 serializers, every combination of auth fields"),
    Harness("reject", reject, quick={"extra": 1, "depth": 0}, thorough={"extra": 2, "depth": 1},
            labels=["malformed", "other", "accepted", "rejected"],
            bounds="3 serializers x 22 message types, lengths one (thorough two) off the allowed ones, any element values"),
    Harness("empty", empty, labels=["rejected"], bounds="empty input and list, any unknown integer type code, any type code that is no number"),
]
ASSUMPTIONS = [
    "json, cbor2 and msgpack are replaced by their contract: decoding an encoding gives the value back (tuples as lists), "
    "values a codec cannot encode raise; integers within 64 bits, text dictionary keys",
    "dictionaries of HELLO and WELCOME are covered by M01 (decoding) and by the round trips here",
]
