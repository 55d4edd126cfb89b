"""Large populations: the same guarantees with hundreds of sessions, subscriptions, registrations, calls and requests.

Populations have given IDs and texts; which members act, and how, is a choice, and what they carry is arbitrary."""
from .broker import arguments, carried
from .common import eq, land, lnot, lor, snap
from .wire import build


class Many:
    """Calls that must succeed; what they answer."""

    def __init__(self, c, n, few=False):
        self.c = c
        self.few = few
        self.n = n
        self.done = set()

    def ask(self, f, *a, label):
        o = self.c.call(f, *a)
        self.c.check(o.ok, label)
        if not o.ok:
            self.c.assume(False)
        return o.value

    def who(self, name="member"):
        """The first, one in the middle or the last member."""
        n = self.n
        return pick(self.c, self.few, name, [n // 2, 0, n - 1])

    def details(self, sid):
        return self.c.w.types.SessionDetails(sid, "realm1", "authid", "role")


def pick(c, few, name, options):
    """A choice, or the first option where the population is so large that few paths are explored."""
    return options[0] if few else c.choice(name, options)


def distinct(xs):
    return len({int(x) for x in xs}) == len(xs)


def members(c, n, few, kinds=("small", "large", "any")):
    """IDs for a population of n, or of fewer when they count from anywhere."""
    k = pick(c, few, "ids", list(kinds))
    if k == "small":
        return list(range(1, n + 1))
    if k == "large":
        return [(1 << 53) - 7 * i for i in range(n)]
    n = min(n // 8, 100)
    first = c.id("first")
    c.assume(first <= (1 << 53) - n)
    return [first + i if i else first for i in range(n)]


def whose(ids, x):
    """Whose ID x is (an index)."""
    for i, y in enumerate(ids):
        if eq(x, y):
            return i
    return None


def subscribers(c, focus, n, few=False):
    """n sessions subscribed to one topic and each to one of its own."""
    ids = members(c, n, few)
    n = len(ids)
    m = Many(c, n, few)
    b = c.w.broker.Broker()
    shared, own = [], []
    for k, sid in enumerate(ids):
        m.ask(b.add_session, m.details(sid), label="a new session can join")
        for topic, out in (("shared", shared), (f"own{k}", own)):
            r = m.ask(b.receive_message, sid, build(c, "Subscribe", {"request_id": k + 1, "options": {}, "topic": topic}),
                      label="a SUBSCRIBE of an attached session is accepted")
            if focus == "B02":
                c.check(land(eq(r.recipient, sid), eq(r.message.request_id, k + 1)),
                        "SUBSCRIBED goes to the requester with its request ID")
            out.append(r.message.subscription_id)
    if focus == "B02":
        c.check(all(eq(x, shared[0]) for x in shared), "all holders of a topic get the same subscription ID")
        c.check(distinct([shared[0]] + own), "topics with live subscriptions have different subscription IDs")
    here = list(range(n))
    k = m.who()
    end = pick(c, few, "end", ["unsubscribe", "nothing", "leave"])
    if end == "unsubscribe":
        m.ask(b.receive_message, ids[k], build(c, "Unsubscribe", {"request_id": 1, "subscription_id": shared[k]}),
              label="an UNSUBSCRIBE of a held subscription is accepted")
        here.remove(k)
    elif end == "leave":
        m.ask(b.remove_session, ids[k], label="an attached session can leave")
        here.remove(k)
    j = pick(c, few, "publisher", [0, n - 1])
    if end == "leave" and j == k:
        return
    pids = []
    for topic, want, ident in (("shared", here, shared[0]),) + tuple(
            (f"own{i}", [] if i == k and end == "leave" else [i], own[i]) for i in {0, k, n - 1}):
        f = arguments(c)
        before = {a: snap(f[a]) for a in f}
        req = c.id("request")
        p = m.ask(b.receive_publish, ids[j], build(c, "Publish", dict(
            f, request_id=req, topic=topic, options=c.mkdict([("acknowledge", True)]))),
            label="a PUBLISH of an attached session is accepted")
        got = [] if p.event is None else [whose(ids, x) for x in p.recipients]
        pids.append(p.ack.message.publication_id if p.ack is not None else 0)
        if focus == "B01":
            c.check(set(want) <= set(got), "every current subscriber of the topic receives its events")
            c.check(set(got) <= set(want), "only current subscribers of the topic receive its events")
            c.check(len(set(got)) == len(got), "each subscriber is listed once")
            c.check(bool(m.ask(b.has_subscription, topic, label="the broker reports")) == bool(want),
                    "the broker reports a topic as subscribed exactly when a session holds it")
        elif focus == "B02" and p.event is not None:
            c.check(eq(p.event.subscription_id, ident), "events carry the subscription ID their recipients were given")
        elif focus == "B03":
            c.check(p.ack is not None, "a publication that asks for acknowledgement is acknowledged")
            c.check(land(eq(p.ack.recipient, ids[j]), eq(p.ack.message.request_id, req)), "PUBLISHED goes to the publisher")
            if p.event is not None:
                c.check(eq(p.event.publication_id, p.ack.message.publication_id),
                        "PUBLISHED and EVENT carry the same publication ID")
                for a in ("args", "kwargs"):
                    c.check(carried(c, getattr(p.event, a), before[a]), "the event carries the publisher's " + a)
    if focus == "B03":
        for i in range(n):
            p = m.ask(b.receive_publish, ids[j], build(c, "Publish", {
                "request_id": i + 1, "topic": "shared" if i % 2 else "nobody's", "options": {"acknowledge": True}}),
                label="a PUBLISH of an attached session is accepted")
            pids.append(p.ack.message.publication_id)
        c.check(distinct(pids), "no two publications share a publication ID")
    c.reach("many")


def callees(c, focus, n, few=False):
    """n procedures of as many sessions, and n pending calls by as many others."""
    callers = members(c, 2 * n, few, ("large", "any"))
    n = len(callers) // 2
    owners, callers = callers[:n], callers[n:2 * n]
    m = Many(c, n, few)
    d = c.w.dealer.Dealer()
    one = pick(c, few, "calls of", ["each", "one"]) == "one"
    idents = []
    for k, sid in enumerate(owners):
        m.ask(d.add_session, m.details(sid), label="a session that is not attached can join")
        r = m.ask(d.receive_message, sid, build(c, "Register", {"request_id": k + 1, "options": {}, "procedure": f"p{k}"}),
                  label="a REGISTER of an attached session is answered")
        c.check(type(r.message).__name__ == "Registered", "REGISTER of a free procedure is accepted")
        if type(r.message).__name__ != "Registered":
            c.assume(False)
        if focus == "D01":
            c.check(land(eq(r.recipient, sid), eq(r.message.request_id, k + 1)), "the answer to REGISTER goes to the requester")
        idents.append(r.message.registration_id)
    if focus == "D01":
        c.check(distinct(idents), "live registrations have different IDs")
        k = m.who()
        r = m.ask(d.receive_message, owners[0], build(c, "Register", {"request_id": 1, "options": {}, "procedure": f"p{k}"}),
                  label="a REGISTER of an attached session is answered")
        c.check(type(r.message).__name__ == "Error", "REGISTER of a registered procedure is not accepted")
        if pick(c, few, "end", ["unregister", "leave"]) == "leave":
            m.ask(d.remove_session, owners[k], label="an attached session can leave")
        else:
            m.ask(d.receive_message, owners[k], build(c, "Unregister", {"request_id": 1, "registration_id": idents[k]}),
                  label="the owner of a registration can unregister it")
        for i in {0, k, n - 1}:
            c.check(bool(m.ask(d.has_registration, f"p{i}", label="the dealer reports")) == (i != k),
                    "the dealer reports a procedure as registered exactly while it lives")
        c.reach("many")
        return
    calls = []
    for k, sid in enumerate(callers):
        m.ask(d.add_session, m.details(sid), label="a session that is not attached can join")
        s = callers[0] if one else sid
        o = {"progress": True, "receive_progress": True} if focus == "D04" else {}
        r = m.ask(d.receive_message, s, build(c, "Call", {"request_id": k + 1, "procedure": f"p{k}", "options": o}),
                  label="a CALL of an attached session is answered")
        c.check(type(r.message).__name__ == "Invocation", "a CALL to a registered procedure is routed")
        if type(r.message).__name__ != "Invocation":
            c.assume(False)
        if focus == "D02":
            c.check(land(eq(r.recipient, owners[k]), eq(r.message.registration_id, idents[k])),
                    "the INVOCATION goes to the session that holds the registration")
        calls.append((s, k + 1, owners[k], r.message.request_id))
    if focus == "D02":
        c.check(distinct([x[3] for x in calls]), "no other pending invocation has the invocation's ID")
        c.reach("many")
        return
    k = m.who()
    if focus == "D04":
        r = m.ask(d.receive_message, calls[k][0], build(c, "Call", {
            "request_id": k + 1, "procedure": c.str("procedure"), "options": {"receive_progress": True}}),
            label="a further part of a progressive call is forwarded")
        c.check(type(r.message).__name__ == "Invocation", "a further part of a progressive call is forwarded")
        c.check(land(eq(r.message.request_id, calls[k][3]), eq(r.recipient, calls[k][2])),
                "further parts of a call keep its invocation ID and callee")
    gone = None
    if focus == "D05":
        gone = calls[k][pick(c, few, "leaves", [0, 2])]
        m.ask(d.remove_session, gone, label="an attached session can leave")
    order = {"first": lambda xs: xs, "last": lambda xs: xs[::-1]}[pick(c, few, "answers from", ["first", "last"])](list(range(n)))
    for i in order:
        caller, req, callee, inv = calls[i]
        cls = "Yield" if i % 2 or focus == "D04" else "Error"
        f = {"request_id": inv, "options": {"progress": True} if focus == "D04" else {}} if cls == "Yield" else {
            "message_type": 68, "request_id": inv, "details": {}, "uri": "error"}
        msg = build(c, cls, f)
        o = c.call(d.receive_message, callee, msg)
        if gone in (caller, callee):
            c.check(o.raised(ValueError), "answers to calls of a session that left are refused")
            continue
        c.check(o.ok, "an answer of the callee to a pending invocation is accepted")
        if not o.ok:
            c.assume(False)
        c.check(land(eq(o.value.recipient, caller), eq(o.value.message.request_id, req)),
                "the answer goes to the session that made the call, with its request ID")
        if focus == "D03":
            c.check(c.call(d.receive_message, callee, msg).raised(ValueError), "a call is answered once")
    c.reach("many")


PAIRS = (("Call", "Result", 48), ("Register", "Registered", 64), ("Subscribe", "Subscribed", 32), ("Publish", "Published", 16))


def request(c, cls, ident):
    f = {"request_id": ident, "options": {"acknowledge": True} if cls == "Publish" else {}}
    f.update({"Call": {"procedure": "p"}, "Register": {"procedure": "p"}, "Unregister": {"registration_id": ident},
              "Unsubscribe": {"subscription_id": ident}}.get(cls, {"topic": "t"}))
    if cls in ("Unregister", "Unsubscribe"):
        f.pop("options")
    return build(c, cls, f)


def reply(c, cls, ident, named=None):
    f = {"request_id": ident}
    named = ident if named is None else named
    f.update({"Result": {"details": {}}, "Registered": {"registration_id": named}, "Subscribed": {"subscription_id": named},
              "Published": {"publication_id": named}}.get(cls, {}))
    return build(c, cls, f)


def done(m, k):
    """Was member k dealt with before?"""
    before = k in m.done
    m.done.add(k)
    return before


def requests(c, n, few=False):
    """n outstanding requests of one kind, answered from either end; one of them, half of them or all with an error."""
    from .client import Wire

    s = c.w.session.WAMPSession(Wire())
    cls, answer, code = c.choice("request", list(PAIRS))
    ids = members(c, n, few)
    n = len(ids)
    m = Many(c, n, few)
    for i in ids:
        m.ask(s.send_message, request(c, cls, i), label=f"the request {cls} can be sent")
    order = list(range(n)) if pick(c, few, "from", ["first", "last"]) == "first" else list(range(n))[::-1]
    errors = pick(c, few, "errors", ["one", "even", "all"])
    k = m.who()
    for i in order[:] if errors != "one" else [k] + order:
        wrong = {"one": i == k, "even": i % 2 == 0, "all": True}[errors]
        kinds = ["Error", answer] if wrong else [answer, "Error"]
        for j, what in enumerate(kinds):
            msg = reply(c, answer, ids[i]) if what != "Error" else build(
                c, "Error", {"message_type": code, "request_id": ids[i], "details": {}, "uri": c.str("uri") if i == k else "error"})
            o = c.call(s.receive_message, msg)
            if j == 0 and not (errors == "one" and i == k and done(m, k)):
                c.check(o.ok, f"{what} is accepted when due")
            else:
                c.check(o.raised(ValueError), f"{what} is only accepted when due")
    c.reach("many")


def held(c, focus, n, few=False):
    """n registrations or subscriptions, one of them ended; n unanswered invocations."""
    m = Many(c, n, few)
    from .client import Wire

    s = c.w.session.WAMPSession(Wire())
    what = c.choice("held", ["Register", "Subscribe"]) if focus == "C02" else "Register"
    ids = [1 << 53, 1] + [7 * i for i in range(2, n)]
    done = {"Register": "Registered", "Subscribe": "Subscribed"}[what]
    for i in ids:
        m.ask(s.send_message, request(c, what, i), label=f"the request {what} can be sent")
        m.ask(s.receive_message, reply(c, done, i), label=f"{done} is accepted when due")
    k = m.who()
    if focus == "C02":
        un = {"Register": "Unregister", "Subscribe": "Unsubscribe"}[what]
        m.ask(s.send_message, request(c, un, ids[k]), label=f"the request {un} can be sent")
        m.ask(s.receive_message, reply(c, un + ("ed" if un == "Unregister" else "d"), ids[k]), label=f"{un} is confirmed")
    for x, i in enumerate(ids):
        if what == "Register":
            msg = build(c, "Invocation", {"request_id": i, "registration_id": i, "details": {}})
        else:
            msg = build(c, "Event", {"subscription_id": i, "publication_id": i, "details": {}})
        o = c.call(s.receive_message, msg)
        if focus == "C02" and x == k:
            c.check(o.raised(ValueError), "nothing is accepted for what was ended")
        else:
            c.check(o.ok, "what belongs to something held is accepted")
    if focus == "C03":
        for i in ids if pick(c, few, "from", ["first", "last"]) == "first" else ids[::-1]:
            y = build(c, "Yield", {"request_id": i, "options": {}})
            c.check(c.call(s.send_message, y).ok, "Yield is sent when allowed")
            c.check(c.call(s.send_message, y).raised(ValueError), "Yield is only sent when allowed")
    c.reach("many")


# -- long histories: one thing over and over, while something else lasts


def people(m, r, n):
    """n sessions with any IDs join r."""
    c = m.c
    ids = []
    for _ in range(n):
        ids.append(c.id("session"))
        for x in ids[:-1]:
            c.assume(lnot(eq(x, ids[-1])))
        m.ask(r.add_session, m.details(ids[-1]), label="a session that is not attached can join")
    return ids


def counting(c, n):
    """n request IDs from anywhere."""
    first = c.id("first request")
    c.assume(first <= (1 << 53) - n)
    return lambda i: first + i if i else first


def texts(c, a, b):
    """Two different texts."""
    x, y = c.str(a), c.str(b)
    c.assume(lnot(eq(x, y)))
    return x, y


def receive(m, d, sid, cls, f, label):
    return m.ask(d.receive_message, sid, build(m.c, cls, f), label=label)


def stream(c, focus, n):
    """One call with n progressive parts or results, while another call waits."""
    m = Many(c, n)
    d = c.w.dealer.Dealer()
    s1, s2, s3 = people(m, d, 3)
    req = c.id("call")
    receive(m, d, s1, "Register", {"request_id": 1, "options": {}, "procedure": "p"}, "a REGISTER of an attached session is answered")
    shape = c.choice("shape", ["results", "parts", "both"])
    routed = "a CALL of an attached session is answered"
    o = receive(m, d, s3, "Call", {"request_id": req, "procedure": "p", "options": {}}, routed).message.request_id
    x = receive(m, d, s2, "Call", {"request_id": req, "procedure": "p", "options": dict(
        {"receive_progress": True}, **({} if shape == "results" else {"progress": True}))}, routed).message.request_id
    for i in range(n):
        if shape != "results":
            r = receive(m, d, s2, "Call", {"request_id": req, "procedure": "p", "options": {
                "receive_progress": True, "progress": True}}, "a further part of a progressive call is forwarded")
            if focus == "D04":
                c.check(type(r.message).__name__ == "Invocation" and land(eq(r.message.request_id, x), eq(r.recipient, s1),
                        eq(r.message.details.get("progress"), True), eq(r.message.details.get("receive_progress"), True)),
                        "further parts of a call keep its invocation ID and callee")
        if shape != "parts":
            r = receive(m, d, s1, "Yield", {"request_id": x, "args": [i], "options": {"progress": True}},
                        "an answer of the callee to a pending invocation is accepted")
            c.check(land(eq(r.recipient, s2), eq(r.message.request_id, req)),
                    "the answer goes to the session that made the call, with its request ID")
            if focus == "D04":
                c.check(type(r.message).__name__ == "Result" and eq(r.message.details.get("progress"), True),
                        "a progressive YIELD becomes a progressive RESULT")
            else:
                c.check(eq(r.message.args[0], i), "the answer carries the callee's arguments")
    if shape != "results":
        r = receive(m, d, s2, "Call", {"request_id": req, "procedure": "p", "options": {"receive_progress": True}},
                    "a further part of a progressive call is forwarded")
        if focus == "D04":
            c.check(type(r.message).__name__ == "Invocation" and land(eq(r.message.request_id, x), eq(r.recipient, s1),
                    not r.message.details.get("progress", False)), "the final part of a call keeps its invocation ID and callee")
    for caller, inv in [(s2, x), (s3, o)]:
        cls = c.choice("answer", ["Yield", "Error"])
        f = {"request_id": inv, "options": {}} if cls == "Yield" else {
            "message_type": 68, "request_id": inv, "details": {}, "uri": c.str("uri")}
        r = receive(m, d, s1, cls, f, "an answer of the callee to a pending invocation is accepted")
        c.check(land(eq(r.recipient, caller), eq(r.message.request_id, req)),
                "the answer goes to the session that made the call, with its request ID")
        if focus == "D04":
            c.check(not getattr(r.message, "details", {}).get("progress", False), "a final answer becomes a final RESULT")
        else:
            c.check(c.call(d.receive_message, s1, build(c, cls, f)).raised(ValueError), "a call is answered once")
    c.reach("stream")


def calls_again(c, focus, n):
    """n calls one after the other, while another call waits."""
    m = Many(c, n)
    d = c.w.dealer.Dealer()
    s1, s2, s3 = people(m, d, 3)
    at = counting(c, n)
    waiting = c.id("waiting call")
    reg = receive(m, d, s1, "Register", {"request_id": 1, "options": {}, "procedure": "p"},
                  "a REGISTER of an attached session is answered").message.registration_id
    routed = "a CALL of an attached session is answered"
    o = receive(m, d, s3, "Call", {"request_id": waiting, "procedure": "p", "options": {}}, routed).message.request_id
    same_id = c.choice("request IDs", ["one", "counting"]) == "one"
    how = c.choice("ended by", ["Yield", "Error", "progress", "leave"] if focus == "D05" else ["Yield", "Error", "progress"])
    for i in range(n):
        req = at(0 if same_id else i)
        r = receive(m, d, s2, "Call", {"request_id": req, "procedure": "p", "options": {"receive_progress": True} if how == "progress" else {}}, routed)
        c.check(type(r.message).__name__ == "Invocation", "a CALL to a registered procedure is routed")
        if type(r.message).__name__ != "Invocation":
            c.assume(False)
        x = r.message.request_id
        if focus == "D02":
            c.check(land(eq(r.recipient, s1), eq(r.message.registration_id, reg)),
                    "the INVOCATION goes to the session that holds the registration")
            c.check(lnot(eq(x, o)), "no other pending invocation has the invocation's ID")
        if how == "leave":
            m.ask(d.remove_session, s2, label="an attached session can leave")
            y = build(c, "Yield", {"request_id": x, "options": {}})
            c.check(c.call(d.receive_message, s1, y).raised(ValueError), "answers to calls of a session that left are refused")
            m.ask(d.add_session, m.details(s2), label="a session that is not attached can join")
            continue
        for last in ([False, True] if how == "progress" else [True]):
            cls = "Error" if how == "Error" else "Yield"
            f = {"message_type": 68, "request_id": x, "details": {}, "uri": "error"} if cls == "Error" else {
                "request_id": x, "options": {} if last else {"progress": True}}
            r = receive(m, d, s1, cls, f, "an answer of the callee to a pending invocation is accepted")
            c.check(land(eq(r.recipient, s2), eq(r.message.request_id, req)),
                    "the answer goes to the session that made the call, with its request ID")
    r = receive(m, d, s1, "Yield", {"request_id": o, "options": {}}, "an answer of the callee to a pending invocation is accepted")
    c.check(land(eq(r.recipient, s3), eq(r.message.request_id, waiting)),
            "the answer goes to the session that made the call, with its request ID")
    c.reach("again")


def registrations_again(c, n):
    """One procedure registered and given up n times, while another lives."""
    m = Many(c, n)
    d = c.w.dealer.Dealer()
    s1, s2 = people(m, d, 2)
    at = counting(c, n)
    proc, lasts = texts(c, "procedure", "lasting")
    answered = "a REGISTER of an attached session is answered"
    last = receive(m, d, s2, "Register", {"request_id": 1, "options": {}, "procedure": lasts}, answered).message.registration_id
    how = c.choice("ended by", ["unregister", "leave"])
    for i in range(n):
        r = receive(m, d, s1, "Register", {"request_id": at(i), "options": {}, "procedure": proc}, answered)
        c.check(type(r.message).__name__ == "Registered", "REGISTER of a free procedure is accepted")
        if type(r.message).__name__ != "Registered":
            c.assume(False)
        c.check(land(eq(r.recipient, s1), eq(r.message.request_id, at(i))), "the answer to REGISTER goes to the requester")
        c.check(lnot(eq(r.message.registration_id, last)), "live registrations have different IDs")
        if how == "leave":
            m.ask(d.remove_session, s1, label="an attached session can leave")
            m.ask(d.add_session, m.details(s1), label="a session that is not attached can join")
        else:
            r = receive(m, d, s1, "Unregister", {"request_id": at(i), "registration_id": r.message.registration_id},
                        "the owner of a registration can unregister it")
            c.check(land(eq(r.recipient, s1), eq(r.message.request_id, at(i))), "the answer to UNREGISTER goes to the requester")
        c.check(not m.ask(d.has_registration, proc, label="the dealer reports") and
                bool(m.ask(d.has_registration, lasts, label="the dealer reports")),
                "the dealer reports a procedure as registered exactly while it lives")
    r = receive(m, d, s1, "Register", {"request_id": 1, "options": {}, "procedure": lasts}, answered)
    c.check(type(r.message).__name__ == "Error", "REGISTER of a registered procedure is not accepted")
    c.reach("again")


def subscriptions_again(c, focus, n):
    """One topic subscribed and given up n times, while another subscription to the same or another topic lasts."""
    m = Many(c, n)
    b = c.w.broker.Broker()
    s1, s2, s3 = people(m, b, 3)
    at = counting(c, n)
    t, other = texts(c, "topic", "other topic")
    fine = "a SUBSCRIBE of an attached session is accepted"
    shared = c.choice("lasting", ["same topic", "other topic"]) == "same topic"
    topic = t if shared else other
    last = receive(m, b, s2, "Subscribe", {"request_id": 1, "options": {}, "topic": topic}, fine).message.subscription_id
    how = c.choice("ended by", ["unsubscribe", "leave"])
    for i in range(n):
        r = receive(m, b, s1, "Subscribe", {"request_id": at(i), "options": {}, "topic": t}, fine)
        if focus == "B02":
            c.check(land(eq(r.recipient, s1), eq(r.message.request_id, at(i))), "SUBSCRIBED goes to the requester with its request ID")
            c.check(eq(eq(r.message.subscription_id, last), shared), "a topic has one subscription ID of its own")
        s = r.message.subscription_id
        for here in (True, False):
            for name in [t] if shared else [t, other]:
                want = ([s1] if here and name is t else []) + ([s2] if name is topic else [])
                p = m.ask(b.receive_publish, s3, build(c, "Publish", {"request_id": at(i), "topic": name, "options": {}}),
                          label="a PUBLISH of an attached session is accepted")
                got = [] if p.event is None else [r for r in p.recipients]
                if focus == "B01":
                    c.check(land(len(got) == len(want), *[lor(*[eq(x, y) for y in got]) for x in want]),
                            "exactly the current subscribers of the topic receive its events")
                elif got:
                    c.check(eq(p.event.subscription_id, s if name is t and here else last),
                            "events carry the subscription ID their recipients were given")
            if not here:
                break
            if how == "leave":
                m.ask(b.remove_session, s1, label="an attached session can leave")
                m.ask(b.add_session, m.details(s1), label="a new session can join")
            else:
                r = receive(m, b, s1, "Unsubscribe", {"request_id": at(i), "subscription_id": s},
                            "an UNSUBSCRIBE of a held subscription is accepted")
                if focus == "B02":
                    c.check(land(eq(r.recipient, s1), eq(r.message.request_id, at(i))), "UNSUBSCRIBED goes to the requester")
    c.reach("again")


def requests_again(c, n):
    """n requests of one kind answered one after the other, while another waits."""
    m = Many(c, n)
    from .client import Wire

    s = c.w.session.WAMPSession(Wire())
    cls, answer, code = c.choice("request", list(PAIRS))
    same_id = c.choice("request IDs", ["one", "counting"]) == "one"
    how = c.choice("answered by", [answer, "Error"])
    at = counting(c, n + 1)
    waiting = at(n)
    m.ask(s.send_message, request(c, cls, waiting), label=f"the request {cls} can be sent")
    for i in range(n):
        ident = at(0 if same_id else i)
        m.ask(s.send_message, request(c, cls, ident), label=f"the request {cls} can be sent")
        if how == "Error":
            msg = build(c, "Error", {"message_type": code, "request_id": ident, "details": {}, "uri": "error"})
        else:
            msg = reply(c, answer, ident, i + 1)
        m.ask(s.receive_message, msg, label=f"{how} is accepted when due")
        c.check(c.call(s.receive_message, msg).raised(ValueError), f"{how} is only accepted when due")
    m.ask(s.receive_message, reply(c, answer, waiting, 1), label=f"{answer} is accepted when due")
    c.check(c.call(s.receive_message, reply(c, answer, waiting, 1)).raised(ValueError), f"{answer} is only accepted when due")
    c.reach("again")


def results(c, n):
    """A call with n further parts and n progressive results."""
    m = Many(c, n)
    from .client import Wire

    s = c.w.session.WAMPSession(Wire())
    o = {"progress": True, "receive_progress": True}
    req = c.id("call")
    parts = c.choice("parts", [False, True])
    m.ask(s.send_message, build(c, "Call", {"request_id": req, "procedure": "p", "options": o}), label="the request Call can be sent")
    for i in range(n):
        if parts:
            m.ask(s.send_message, build(c, "Call", {"request_id": req, "procedure": "p", "options": o}),
                  label="the request Call can be sent")
        m.ask(s.receive_message, build(c, "Result", {"request_id": req, "details": {"progress": True}, "args": [i]}),
              label="Result is accepted when due")
    last = c.choice("last", ["Result", "Error"])
    msg = reply(c, "Result", req) if last == "Result" else build(
        c, "Error", {"message_type": 48, "request_id": req, "details": {}, "uri": "error"})
    m.ask(s.receive_message, msg, label=f"{last} is accepted when due")
    c.check(c.call(s.receive_message, msg).raised(ValueError), f"{last} is only accepted when due")
    c.reach("stream")


def held_again(c, n):
    """A registration or subscription made and ended n times, while another lasts."""
    m = Many(c, n)
    from .client import Wire

    s = c.w.session.WAMPSession(Wire())
    what = c.choice("held", ["Register", "Subscribe"])
    done, un = {"Register": ("Registered", "Unregister"), "Subscribe": ("Subscribed", "Unsubscribe")}[what]

    count = []

    def comes(i):
        count.append(i)
        if what == "Register":
            return c.call(s.receive_message, build(c, "Invocation", {"request_id": len(count), "registration_id": i, "details": {}}))
        return c.call(s.receive_message, build(c, "Event", {"subscription_id": i, "publication_id": i, "details": {}}))

    def get(i):
        m.ask(s.send_message, request(c, what, i), label=f"the request {what} can be sent")
        m.ask(s.receive_message, reply(c, done, i), label=f"{done} is accepted when due")

    at = counting(c, n + 1)
    lasting = at(n)
    get(lasting)
    same_id = c.choice("IDs", ["one", "counting"]) == "one"
    for i in range(n):
        i = at(0 if same_id else i)
        get(i)
        for x in (i, lasting):
            c.check(comes(x).ok, "what belongs to something held is accepted")
        m.ask(s.send_message, request(c, un, i), label=f"the request {un} can be sent")
        m.ask(s.receive_message, reply(c, un + ("ed" if un == "Unregister" else "d"), i), label=f"{un} is confirmed")
        c.check(comes(i).raised(ValueError), "nothing is accepted for what was ended")
    c.check(comes(lasting).ok, "what belongs to something held is accepted")
    c.reach("again")


def answers_again(c, n):
    """n invocations answered one after the other, or one with n progressive results, while another waits."""
    m = Many(c, n)
    from .client import Wire

    s = c.w.session.WAMPSession(Wire())
    m.ask(s.send_message, request(c, "Register", 1), label="the request Register can be sent")
    m.ask(s.receive_message, reply(c, "Registered", 1), label="Registered is accepted when due")
    how = c.choice("answers", ["Yield", "Error", "progress"])

    def comes(i):
        m.ask(s.receive_message, build(c, "Invocation", {"request_id": i, "registration_id": 1, "details": {}}),
              label="what belongs to something held is accepted")

    def answer(i, kind_):
        if kind_ == "Error":
            return c.call(s.send_message, build(c, "Error", {"message_type": 68, "request_id": i, "details": {}, "uri": "error"}))
        return c.call(s.send_message, build(c, "Yield", {"request_id": i, "options": {"progress": True} if kind_ == "progress" else {}}))

    at = counting(c, n + 1)
    waiting = at(n)
    comes(waiting)
    if how == "progress":
        comes(at(0))
    for i in range(n):
        i = at(i)
        if how == "progress":
            c.check(answer(at(0), how).ok, "Yield is sent when allowed")
            continue
        comes(i)
        c.check(answer(i, how).ok, f"{how} is sent when allowed")
        c.check(answer(i, "Yield").raised(ValueError), "Yield is only sent when allowed")
    for i in (at(0), waiting) if how == "progress" else (waiting,):
        c.check(answer(i, "Yield").ok, "Yield is sent when allowed")
        c.check(answer(i, "Yield").raised(ValueError), "Yield is only sent when allowed")
    c.reach("again")


# -- one session that holds much


def holder(c, focus, n):
    """A session with n subscriptions, some of them also another's; one or two are given up, then any, then all."""
    m = Many(c, n)
    b = c.w.broker.Broker()
    s1, s2 = people(m, b, 2)
    told = "a SUBSCRIBE of an attached session is accepted"
    subs = [receive(m, b, s1, "Subscribe", {"request_id": k + 1, "options": {}, "topic": f"t{k}"}, told).message.subscription_id
            for k in range(n)]
    also = c.choice("also the other's", ["none", "even", "all"])
    theirs = [k for k in range(n) if also == "all" or also == "even" and k % 2 == 0]
    for k in theirs:
        x = receive(m, b, s2, "Subscribe", {"request_id": k + 1, "options": {}, "topic": f"t{k}"}, told).message.subscription_id
        if focus == "B02":
            c.check(eq(x, subs[k]), "all holders of a topic get the same subscription ID")
    if focus == "B02":
        c.check(distinct(subs), "topics with live subscriptions have different subscription IDs")
    held = set(range(n))
    k = m.who("given up")
    given = [k, (k + 1) % n][:c.choice("how many", [1, 2])]
    for g in given:
        receive(m, b, s1, "Unsubscribe", {"request_id": g + 1, "subscription_id": subs[g]},
                "an UNSUBSCRIBE of a held subscription is accepted")
        held.discard(g)
    if focus == "B04":
        u = build(c, "Unsubscribe", {"request_id": 1, "subscription_id": subs[k]})
        c.check(c.call(b.receive_message, s1, u).raised(ValueError),
                "UNSUBSCRIBE of a subscription the session does not hold is refused with ValueError")

    def observe(near):
        for i in near:
            f = arguments(c)
            p = m.ask(b.receive_publish, s2, build(c, "Publish", dict(f, request_id=1, topic=f"t{i}", options={})),
                      label="a PUBLISH of an attached session is accepted")
            got = [] if p.event is None else [whose([s1, s2], x) for x in p.recipients]
            want = [x for x, on in [(0, i in held), (1, i in theirs)] if on]
            if focus == "B02":
                if p.event is not None:
                    c.check(eq(p.event.subscription_id, subs[i]), "events carry the subscription ID their recipients were given")
                continue
            c.check(sorted(got) == want, "exactly the current subscribers of the topic receive its events, each once")
            c.check(bool(m.ask(b.has_subscription, f"t{i}", label="the broker reports")) == bool(want),
                    "the broker reports a topic as subscribed exactly when a session holds it")

    near = sorted({0, 1, (k - 1) % n, k, (k + 1) % n, (k + 2) % n, n - 1})
    observe(near)
    if c.choice("then", ["leave", "unsubscribe"]) == "leave":
        m.ask(b.remove_session, s1, label="an attached session can leave")
    else:
        for i in range(n):
            if i not in given:
                receive(m, b, s1, "Unsubscribe", {"request_id": i + 1, "subscription_id": subs[i]},
                        "an UNSUBSCRIBE of a held subscription is accepted")
    held = set()
    observe(near)
    c.reach("holder")


def owner(c, focus, n):
    """A session with n registrations; one or two are given up, then all."""
    m = Many(c, n)
    d = c.w.dealer.Dealer()
    s1, s2 = people(m, d, 2)
    answered, routed = "a REGISTER of an attached session is answered", "a CALL of an attached session is answered"

    def register(sid, i):
        return receive(m, d, sid, "Register", {"request_id": i + 1, "options": {}, "procedure": f"p{i}"}, answered).message

    regs = []
    for i in range(n):
        r = register(s1, i)
        c.check(type(r).__name__ == "Registered", "REGISTER of a free procedure is accepted")
        if type(r).__name__ != "Registered":
            c.assume(False)
        regs.append(r.registration_id)
    if focus == "D01":
        c.check(distinct(regs), "live registrations have different IDs")
    k = m.who("given up")
    given = [k, (k + 1) % n][:c.choice("how many", [0, 1, 2])]
    for g in given:
        receive(m, d, s1, "Unregister", {"request_id": g + 1, "registration_id": regs[g]},
                "the owner of a registration can unregister it")
    if focus == "D06" and given:
        u = build(c, "Unregister", {"request_id": 1, "registration_id": regs[k]})
        c.check(c.call(d.receive_message, s1, u).raised(ValueError),
                "UNREGISTER of a registration the session does not own is refused with ValueError")
    near = sorted({0, 1, (k - 1) % n, k, (k + 1) % n, (k + 2) % n, n - 1})
    pending = []

    def observe(live):
        for i in near:
            c.check(bool(m.ask(d.has_registration, f"p{i}", label="the dealer reports")) == (i in live),
                    "the dealer reports a procedure as registered exactly while it lives")
            r = receive(m, d, s2, "Call", {"request_id": i + 1, "procedure": f"p{i}", "options": {}}, routed)
            c.check((type(r.message).__name__ == "Invocation") == (i in live), "a CALL is routed exactly to a live registration")
            if i in live and type(r.message).__name__ == "Invocation":
                c.check(land(eq(r.recipient, s1), eq(r.message.registration_id, regs[i])),
                        "the INVOCATION goes to the session that holds the registration")
                pending.append(r.message.request_id)

    live = set(range(n)) - set(given)
    observe(live)
    left = c.choice("then", ["leave", "unregister"]) == "leave"
    if left:
        m.ask(d.remove_session, s1, label="an attached session can leave")
    else:
        for i in sorted(live):
            receive(m, d, s1, "Unregister", {"request_id": i + 1, "registration_id": regs[i]},
                    "the owner of a registration can unregister it")
    for x in pending:
        o = c.call(d.receive_message, s1, build(c, "Yield", {"request_id": x, "options": {}}))
        if left:
            c.check(o.raised(ValueError), "answers to calls of a session that left are refused")
        else:
            c.check(o.ok and eq(o.value.recipient, s2), "an answer of the callee to a pending invocation is accepted")
    observe(set())
    if focus == "D01":
        for i in near:
            c.check(type(register(s2, i)).__name__ == "Registered", "a procedure given up is free again")
    c.reach("holder")
