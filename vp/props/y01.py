"""Session details are values."""
from .common import Harness, eq, iff, land, lnot, truth


def fields(c, i=""):
    return c.id("session" + i), c.str("realm" + i), c.str("authid" + i), c.str("authrole" + i)


def same_session(c):
    """Two session details are equal exactly when all they say is."""
    T = c.w.types.SessionDetails
    f = fields(c)
    how = c.choice("other", ["any", "copy", "another session", "another realm", "another authid", "another authrole"])
    g = list(fields(c, "'")) if how == "any" else list(f)
    if how.startswith("another"):
        i = ["another session", "another realm", "another authid", "another authrole"].index(how)
        g[i] = fields(c, "'")[i]
    a, b = T(*f), T(*g)
    equal = land(*[eq(x, y) for x, y in zip(f, g)])
    for x, y in ((a, b), (b, a)):
        o = c.call(lambda p, q: c.f(p.__eq__, q), x, y)
        c.check(o.ok and iff(truth(o.value), equal), "session details are equal exactly when ID, realm, authid and authrole are")
    c.check(c.call(lambda p: c.f(p.__eq__, p), a).value, "session details equal themselves")
    for d, v in ((a, f), (b, g)):
        c.check(land(eq(d.session_id, v[0]), eq(d.realm, v[1]), eq(d.authid, v[2]), eq(d.authrole, v[3])),
                "session details tell what they were made with")
    c.reach("compared")


def others(c):
    """Session details equal nothing else."""
    d = c.w.types.SessionDetails(*fields(c))
    v = c.choice("other", [None, 1, "session", (), [], object()])
    o = c.call(lambda p, q: p == q, d, v)
    c.check(o.ok and not o.value, "session details equal nothing that is not session details")
    o = c.call(lambda p, q: p != q, d, v)
    c.check(o.ok and bool(o.value), "session details differ from what is not session details")
    c.reach("other")


HARNESSES = [
    Harness("same", same_session, labels=["compared"], bounds="any two session details, and any two that agree in all but one field"),
    Harness("others", others, labels=["other"], bounds="None, a number, a text, a tuple, a list, any object"),
]
