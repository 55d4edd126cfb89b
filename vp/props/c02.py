"""A client accepts invocations and events only for what it holds."""
from . import many as population
from .client import Client, two_sessions
from .common import Harness

SENDS = ["Register", "Unregister", "Subscribe", "Unsubscribe"]
RECEIVES = ["Registered", "Unregistered", "Subscribed", "Unsubscribed", "Error", "Invocation", "Event"]


def holding(c, registrations, subscriptions, n, sends, receives):
    s = Client(c, "C02")
    s.have("registration", registrations)
    s.have("subscription", subscriptions)
    for _ in range(n):
        c.reach(s.step(sends, receives))
    s.receive(c.choice("final", ["Invocation", "Event"]))


def ending(c, kind, n):
    """Several registrations or subscriptions, some ended."""
    s = Client(c, "C02")
    s.have(kind, n)
    reg = kind == "registration"
    s.have("subscription" if reg else "registration", 1)
    for _ in range(n):
        r = s.send("Unregister" if reg else "Unsubscribe")
        how = c.choice("answered", ["confirmed", "error", "not"])
        if how == "confirmed":
            s.receive("Unregistered" if reg else "Unsubscribed", ident=r.ident)
        elif how == "error":
            s.receive("Error", ident=r.ident)
    s.receive("Invocation")
    s.receive("Event")


def sessions(c, n):
    prefix = c.choice("first", [["registration"], ["subscription"]])
    two_sessions(c, "C02", prefix, ["Invocation", "Event"], n)


def many(c, n, few=False):
    population.held(c, "C02", n, few)


def again(c, n):
    population.held_again(c, n)


HARNESSES = [
    Harness("fresh", holding, quick={"registrations": 0, "subscriptions": 0, "n": 3, "sends": SENDS, "receives": RECEIVES},
            thorough={"registrations": 0, "subscriptions": 0, "n": 4, "sends": SENDS, "receives": RECEIVES},
            labels=["received Invocation", "received Event", "refused Invocation", "refused Event"],
            bounds="every sequence of 3 (thorough 4) messages about registrations and subscriptions, then INVOCATION or EVENT; "
                   "any IDs"),
    Harness("holding", holding, quick={"registrations": 1, "subscriptions": 1, "n": 2, "sends": SENDS, "receives": RECEIVES},
            thorough={"registrations": 1, "subscriptions": 1, "n": 3, "sends": SENDS, "receives": RECEIVES},
            labels=["received Invocation", "received Event", "refused Invocation", "refused Event"],
            bounds="the same for a session with a registration and a subscription, 2 (thorough 3) messages"),
    Harness("ending-registrations", ending, quick={"kind": "registration", "n": 2}, thorough={"kind": "registration", "n": 3},
            labels=["received Invocation", "refused Invocation", "received Unregistered", "received Error"],
            bounds="2 (thorough 3) registrations, as many UNREGISTER requests, each confirmed, refused or unanswered"),
    Harness("ending-subscriptions", ending, quick={"kind": "subscription", "n": 2}, thorough={"kind": "subscription", "n": 3},
            labels=["received Event", "refused Event", "received Unsubscribed", "received Error"],
            bounds="2 (thorough 3) subscriptions, as many UNSUBSCRIBE requests, each confirmed, refused or unanswered"),
    Harness("two-sessions", sessions, quick={"n": 2}, thorough={"n": 3}, labels=["two sessions"],
            bounds="two sessions at once, 2 (thorough 3) messages to either"),
    Harness("many", many, quick={"n": 300}, thorough={"n": 1100}, labels=["many"], extra=True,
            bounds="300 (thorough 1100) registrations, subscriptions or invocations at once"),
    Harness("crowded", many, quick={"n": 1100, "few": True}, thorough={"n": 4200, "few": True}, labels=["many"], extra=True,
            bounds="1100 (thorough 4200) registrations, subscriptions or invocations at once; first and last acting only in part"),
    Harness("again", again, quick={"n": 1100}, thorough={"n": 4200}, labels=["again"], extra=True,
            bounds="a registration or subscription made and ended 1100 (thorough 4200) times, while another lasts"),
]
ASSUMPTIONS = [
    "outstanding requests of one kind have different IDs",
    "UNREGISTERED and UNSUBSCRIBED for something not held is unspecified and left out",
    "confirming the same ID twice and ending it once ends it",
]
