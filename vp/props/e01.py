"""Errors say what the peer said."""
from .client import Wire
from .common import Harness, eq, land, lnot, lor, same, snap
from .wire import build


def value(c, name):
    """A value and its text."""
    k = c.choice(name + " is", ["text", "number", "None", "True"])
    if k == "text":
        v = c.str(name)
        return v, v
    if k == "number":
        v = c.int(name, 0)
        return v, c.f(str, v)
    return (None, "None") if k == "None" else (True, "True")


def contents(c, nargs, nkw):
    a = c.choice("args", [None] + list(range(nargs + 1)))
    k = c.choice("kwargs", [None] + list(range(nkw + 1)))
    args = None if a is None else [value(c, "arg") for _ in range(a)]
    kwargs = None if k is None else [(c.str("key"), *value(c, "kwarg")) for _ in range(k)]
    for i in range(k or 0):
        for j in range(i):
            c.assume(lnot(eq(kwargs[i][0], kwargs[j][0])))
    texts = [""]
    if args is not None:
        t = cat(*[x for i, (_, t) in enumerate(args) for x in ((", ", t) if i else (": ", t))])
        texts = [cat(x, t) for x in texts] if args else ["", ": "]
    if kwargs is not None:
        t = cat(*[x for i, (key, _, t) in enumerate(kwargs) for x in (", " if i else ": ", key, "=", t)])
        texts = [cat(x, t) for x in texts] if kwargs else texts + [cat(x, ": ") for x in texts]
    return ({"args": None if args is None else [v for v, _ in args],
             "kwargs": None if kwargs is None else c.mkdict([(key, v) for key, v, _ in kwargs])}, texts)


def cat(*xs):
    out = ""
    for x in xs:
        out = out + x
    return out


def says(c, e, uri, texts, what):
    o = c.call(type(e).__str__, e)
    c.check(o.ok, f"{what} has a text")
    if o.ok:
        c.check(lor(*[eq(o.value, cat(uri, t)) for t in texts]),
                f"the text of {what} is its URI, then its arguments, then its keyword arguments")


def aborted(c, nargs, nkw):
    """A client that gets an ABORT learns why."""
    j = c.w.joiner.Joiner(c.str("realm"), Wire())
    c.assume(c.call(j.send_hello).ok)
    f, texts = contents(c, nargs, nkw)
    before = {a: snap(f[a]) for a in f}
    uri = c.str("reason")
    m = build(c, "Abort", dict(f, details=c.open("details"), reason=uri))
    o = c.call(j.receive, (b"frame", m)) if c.choice("through", [False, True]) else c.call(j.receive_message, m)
    c.check(o.raised(c.w.exception.ApplicationError), "ABORT is raised as an application error")
    if not o.raised(c.w.exception.ApplicationError):
        return
    e = o.err
    c.check(eq(e.message, uri), "the application error carries the reason")
    if before["args"] is not None:
        c.check(same(list(e.args), before["args"]), "the application error carries the positional arguments")
    if before["kwargs"] is None:
        c.check(e.kwargs is None or c.f(len, e.kwargs) == 0, "the application error has no keyword arguments of its own")
    else:
        c.check(e.kwargs is not None and same(e.kwargs, before["kwargs"]), "the application error carries the keyword arguments")
    says(c, e, uri, texts, "an application error")
    c.reach("aborted")


def error(c, nargs, nkw):
    f, texts = contents(c, nargs, nkw)
    uri = c.str("uri")
    m = build(c, "Error", dict(f, message_type=c.int("type"), request_id=c.id("request"), details=c.open("details"), uri=uri))
    says(c, m, uri, texts, "an ERROR")
    c.reach("error")


HARNESSES = [
    Harness("aborted", aborted, quick={"nargs": 2, "nkw": 2}, thorough={"nargs": 3, "nkw": 2}, labels=["aborted"],
            bounds="up to 2 (thorough 3) positional and 2 keyword arguments: any text, any number that is not "
                   "negative, None, true; any reason"),
    Harness("error", error, quick={"nargs": 2, "nkw": 2}, thorough={"nargs": 3, "nkw": 2}, labels=["error"],
            bounds="ERROR messages with the same contents, any URI"),
]
ASSUMPTIONS = ["a list or dictionary without entries may or may not leave its separator in the text"]
