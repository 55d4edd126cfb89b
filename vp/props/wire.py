"""The WAMP message layouts, written from the WAMP specification (not read from the code under test)."""
from .common import eq, is_valid_id, kind, land, lnot, lor, part, same, truth

A = "args"
# class -> (type code, fields [(attribute, kind)], positional and keyword arguments allowed, constructor parameters)
LAYOUT = {
    "Hello": (1, [("realm", "str"), (None, "hello")], False),
    "Welcome": (2, [("session_id", "id"), (None, "welcome")], False),
    "Abort": (3, [("details", "dict"), ("reason", "str")], True),
    "Challenge": (4, [("authmethod", "str"), ("extra", "dict")], False),
    "Authenticate": (5, [("signature", "str"), ("extra", "dict")], False),
    "Goodbye": (6, [("details", "dict"), ("reason", "str")], False),
    "Error": (8, [("message_type", "int"), ("request_id", "id"), ("details", "dict"), ("uri", "str")], True),
    "Publish": (16, [("request_id", "id"), ("options", "dict"), ("topic", "str")], True),
    "Published": (17, [("request_id", "id"), ("publication_id", "id")], False),
    "Subscribe": (32, [("request_id", "id"), ("options", "dict"), ("topic", "str")], False),
    "Subscribed": (33, [("request_id", "id"), ("subscription_id", "id")], False),
    "Unsubscribe": (34, [("request_id", "id"), ("subscription_id", "id")], False),
    "Unsubscribed": (35, [("request_id", "id")], False),
    "Event": (36, [("subscription_id", "id"), ("publication_id", "id"), ("details", "dict")], True),
    "Call": (48, [("request_id", "id"), ("options", "dict"), ("procedure", "str")], True),
    "Cancel": (49, [("request_id", "id"), ("options", "dict")], False),
    "Result": (50, [("request_id", "id"), ("details", "dict")], True),
    "Register": (64, [("request_id", "id"), ("options", "dict"), ("procedure", "str")], False),
    "Registered": (65, [("request_id", "id"), ("registration_id", "id")], False),
    "Unregister": (66, [("request_id", "id"), ("registration_id", "id")], False),
    "Unregistered": (67, [("request_id", "id")], False),
    "Invocation": (68, [("request_id", "id"), ("registration_id", "id"), ("details", "dict")], True),
    "Interrupt": (69, [("request_id", "id"), ("options", "dict")], False),
    "Yield": (70, [("request_id", "id"), ("options", "dict")], True),
}
CODES = {v[0]: k for k, v in LAYOUT.items()}
PLAIN = [k for k in LAYOUT if k not in ("Hello", "Welcome")]
WITH_ARGS = [k for k in LAYOUT if LAYOUT[k][2]]
ROLES = ("callee", "caller", "publisher", "subscriber", "dealer", "broker")


def lengths(cls):
    code, fields, args = LAYOUT[cls]
    n = 1 + len(fields)
    return (n, n + 2) if args else (n, n)


def field_ok(v, k):
    if k == "id":
        return is_valid_id(v)
    return kind(v, k)


def wellformed(cls, L):
    """Formula: L (a list with a known type code) fits the layout of cls; details of HELLO and WELCOME aside."""
    code, fields, args = LAYOUT[cls]
    lo, hi = lengths(cls)
    if not lo <= len(L) <= hi:
        return False
    cs = [field_ok(v, k) for v, (_, k) in zip(L[1:], fields)]
    if len(L) > lo:
        cs.append(kind(L[lo], "list"))
    if len(L) > lo + 1:
        cs.append(kind(L[lo + 1], "dict"))
    return land(*cs)


def build(c, cls, f):
    """A message of class cls with the given fields (by attribute name)."""
    m = c.w.messages
    fields = getattr(m, cls + "Fields", None)
    if fields is None:
        import sys

        fields = getattr(sys.modules[type_module(c, cls)], cls + "Fields")
    return getattr(m, cls)(fields(**f))


def type_module(c, cls):
    return getattr(c.w.messages, cls).__module__


def attrs(cls):
    """Attributes of a message of this class, in wire order."""
    if cls == "Hello":
        return ["realm", "roles", "authid", "authmethods", "authextra"]
    if cls == "Welcome":
        return ["session_id", "roles", "authid", "authrole", "authmethod", "authextra"]
    out = [a for a, _ in LAYOUT[cls][1]]
    if LAYOUT[cls][2]:
        out += ["args", "kwargs"]
    return out


def same_messages(a, b):
    """Same class and equal fields (absent positional arguments next to keyword arguments count as empty)."""
    cls = type(a).__name__
    if cls != type(b).__name__:
        return False
    cs = []
    for n in attrs(cls):
        x, y = getattr(a, n), getattr(b, n)
        if n == "args":
            if x is None and a.kwargs is not None:
                x = []
            if y is None and b.kwargs is not None:
                y = []
        if cls == "Welcome" and n == "authextra":
            x = {} if x is None else x
            y = {} if y is None else y
        cs.append(same(x, y) if x is not None and y is not None else (x is None and y is None))
    return land(*cs)
