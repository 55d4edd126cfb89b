"""The payload codec round-trips and validates."""
from .common import Harness, KINDS, eq, kind, land, lnot, lor, part, same, snap
from .s01 import INT64, TEXTUAL

IDS = {"json": "JSON_SERIALIZER_ID", "cbor": "CBOR_SERIALIZER_ID", "msgpack": "MSGPACK_SERIALIZER_ID"}


def ident(c, codec):
    return getattr(c.w.serializers, IDS[codec] if codec in IDS else "NONE_SERIALIZER_ID")


def roundtrip(c, nargs, nkw, depth):
    P = c.w.serializers_payload
    codec = c.choice("codec", list(IDS))
    ks = TEXTUAL if codec == "json" else KINDS
    a = c.choice("args", [None] + list(range(nargs + 1)))
    k = c.choice("kwargs", [None] + list(range(nkw + 1)))
    args = None if a is None else [c.any("arg", ks, depth, INT64) for _ in range(a)]
    kwargs = None
    if k is not None:
        keys = [c.str("key") for _ in range(k)]
        for i in range(k):
            for j in range(i):
                c.assume(lnot(eq(keys[i], keys[j])))
        kwargs = c.mkdict([(x, c.any("kwarg", ks, depth, INT64)) for x in keys])
    before = snap(args), snap(kwargs)
    o = c.call(P.serialize_payload, ident(c, codec), args, kwargs)
    c.check(o.ok, f"arguments can be encoded as {codec}")
    c.check(c.f(isinstance, o.value, bytes), "a payload is bytes")
    d = c.call(P.deserialize_payload, ident(c, codec), o.value)
    c.check(d.ok, f"an encoded {codec} payload can be decoded")
    c.check(c.f(isinstance, d.value, tuple) and c.f(len, d.value) == 2, "decoding gives positional and keyword arguments")
    x, y = d.value
    if args is None:
        c.check(x is None if kwargs is None else x is not None and same(x, []),
                "absent positional arguments come back as absent, or as empty next to keyword arguments")
    else:
        c.check(x is not None and same(x, before[0]), f"positional arguments survive the {codec} payload codec")
    if kwargs is None:
        c.check(y is None, "absent keyword arguments come back as absent")
    else:
        c.check(y is not None and same(y, before[1]), f"keyword arguments survive the {codec} payload codec")
    c.check(same(args, before[0]) if args is not None else True, "the arguments are not modified")
    c.reach(codec)


def none_encode(c, nargs):
    P = c.w.serializers_payload
    a = c.choice("args", list(range(nargs + 1)))
    args = [c.any("arg", depth=0) for _ in range(a)]
    kw = c.choice("kwargs", [None, 0, 1])
    kwargs = None if kw is None else c.mkdict([(c.str("key"), c.any("kwarg", depth=0)) for _ in range(kw)])
    o = c.call(P.serialize_payload, c.w.serializers.NONE_SERIALIZER_ID, args, kwargs)
    good = land(a == 1, kind(args[0], "bytes") if a else False, not kw)
    if o.ok:
        c.check(good, "without serializer exactly one bytes argument is accepted")
        c.check(same(o.value, args[0]), "without serializer the payload is the argument")
        d = c.call(P.deserialize_payload, c.w.serializers.NONE_SERIALIZER_ID, o.value)
        c.check(d.ok and c.f(isinstance, d.value, tuple) and c.f(len, d.value) == 2, "it can be decoded")
        c.check(c.f(len, d.value[0]) == 1 and same(d.value[0][0], args[0]), "and gives the argument back")
        c.check(d.value[1] is None or c.f(len, d.value[1]) == 0, "and no keyword arguments")
        c.reach("passed through")
    else:
        c.check(lnot(good), "without serializer one bytes argument is accepted")
        c.check(o.raised(ValueError, TypeError), "anything else is refused with ValueError or TypeError")
        c.reach("refused")


LONG = [300, 513, 1025, 4097]


def none_bytes(c, n):
    """Payloads of every length up to n, and some longer ones, pass through."""
    P = c.w.serializers_payload
    n = c.choice("n", list(range(n + 1)) + LONG)
    b = c.bytes("payload", n)
    N = c.w.serializers.NONE_SERIALIZER_ID
    kwargs = c.choice("kwargs", [None, {}])
    o = c.call(P.serialize_payload, N, [b], kwargs)
    c.check(o.ok and same(o.value, b), "without serializer the payload is the argument")
    d = c.call(P.deserialize_payload, N, b)
    c.check(d.ok and same(d.value[0], [b]), "without serializer decoding gives the payload as only argument")
    c.check(d.value[1] is None or c.f(len, d.value[1]) == 0, "and no keyword arguments")
    o = c.call(P.serialize_payload, N, None, None)
    c.check(o.ok and o.value is None, "no arguments give no payload")
    c.reach("passed through")


def reject(c, size, depth):
    P = c.w.serializers_payload
    codec = c.choice("codec", list(IDS))
    ks = TEXTUAL if codec == "json" else KINDS
    what = c.choice("input", ["list", "other", "malformed"])
    if what == "malformed":
        b = c.malformed(codec)
        o = c.call(P.deserialize_payload, ident(c, codec), b.encode() if codec == "json" else b)
        c.check(not o.ok, f"bytes that are not {codec} are rejected")
        c.reach("malformed")
        return
    if what == "other":
        v = c.any("value", [k for k in ks if k != "list"], depth, INT64)
        b = c.encoded(codec, v)
        o = c.call(P.deserialize_payload, ident(c, codec), b.encode() if codec == "json" else b)
        c.check(o.raised(ValueError, TypeError), "an encoding of anything but an array is rejected")
        c.reach("other")
        return
    n = c.choice("n", list(range(size + 1)))
    L = [c.any("element", ks, depth, INT64) for _ in range(n)]
    b = c.encoded(codec, L)
    o = c.call(P.deserialize_payload, ident(c, codec), b.encode() if codec == "json" else b)
    good = land(n <= 2, kind(L[0], "list") if n > 0 else True, kind(L[1], "dict") if n > 1 else True)
    if o.ok:
        c.check(good, "only an array of at most a list and a dictionary is accepted")
        x, y = o.value
        c.check(x is None if n == 0 else x is not None and same(x, L[0]), "positional arguments are the first element")
        c.check(y is None if n < 2 else y is not None and same(y, L[1]), "keyword arguments are the second element")
        c.reach("accepted")
    else:
        c.check(lnot(good), "an array of at most a list and a dictionary is accepted")
        c.check(o.raised(ValueError, TypeError), "anything else is rejected with ValueError or TypeError")
        c.reach("rejected")


def unknown(c):
    P = c.w.serializers_payload
    i = c.int("id")
    known = [ident(c, x) for x in list(IDS) + ["none"]]
    c.assume(land(*[lnot(eq(i, k)) for k in known]))
    if c.choice("direction", ["encode", "decode"]) == "encode":
        o = c.call(P.serialize_payload, i, [c.any("arg", depth=0)], c.choice("kwargs", [None, {}]))
    else:
        o = c.call(P.deserialize_payload, i, c.bytes("payload", c.choice("n", [0, 1, 4])))
    c.check(o.raised(ValueError, TypeError), "an unknown serializer id is refused with ValueError or TypeError")
    c.check(len(set(known)) == 4, "the serializer ids differ")
    c.reach("refused")


HARNESSES = [
    Harness("roundtrip", roundtrip, quick={"nargs": 2, "nkw": 2, "depth": 0}, thorough={"nargs": 3, "nkw": 2, "depth": 1},
            labels=list(IDS), bounds="3 codecs, up to 2 (thorough 3) positional and 2 keyword arguments of any name and value, "
                                     "each list and dictionary absent, empty or filled"),
    Harness("none-encode", none_encode, quick={"nargs": 3}, thorough={"nargs": 4}, labels=["passed through", "refused"],
            bounds="0 to 3 (thorough 4) arguments of any kind, 0 or 1 keyword argument"),
    Harness("none-bytes", none_bytes, quick={"n": 16}, thorough={"n": 256}, labels=["passed through"],
            bounds="all byte strings of up to 16 (thorough 256) bytes, and of 300, 513, 1025 and 4097"),
    Harness("reject", reject, quick={"size": 4, "depth": 1}, thorough={"size": 5, "depth": 2},
            labels=["malformed", "other", "accepted", "rejected"],
            bounds="3 codecs, every decoded array of up to 4 (thorough 5) elements and every other decoded value"),
    Harness("unknown", unknown, labels=["refused"], bounds="every integer that is no serializer id"),
]
ASSUMPTIONS = ["json, cbor2 and msgpack are replaced by their contract (see S01)"]
