"""What a harness sees: symbolic inputs and checks (SymCtx), or the same with concrete values on the unmodified code."""
import base64
import datetime
import fractions
import hashlib
import hmac as real_hmac
import json
import os
import random
import secrets
import sys
import time
import types

import cbor2
import nacl.signing
import nacl.utils
import msgpack

from . import engine, instrument
from .engine import Control, PathStop, z3
from . import sym
from .sym import (
    KIDX, KINDS, OpenBase, SymAny, SymB64, SymB64Bytes, SymBool, SymBV, SymBytes, SymCStr, SymDefaultDict, SymDict,
    SymFloat, SymInt, SymSet, SymStr, SymText, SymTextBytes, land, mkbool, pytype, zbool,
)

ID_MAX = 1 << 53
SCALARS = ("none", "bool", "int", "float", "str")
MODULES = (
    "acceptor", "auth", "broker", "dealer", "exception", "idgen", "joiner", "messages", "serializers",
    "serializers.payload", "serializers.serializer", "session", "transports.rawsocket", "types", "uris",
    "messages.hello", "messages.util",
)


class Outcome:
    """Result of a call into the code under test."""

    __slots__ = ("ok", "value", "err")

    def __init__(self, ok, value, err):
        self.ok = ok
        self.value = value
        self.err = err

    def raised(self, *types_):
        return not self.ok and isinstance(self.err, types_)

    def tag(self):
        if self.ok:
            return "ok"
        return "raise " + type(self.err).__name__

    def __repr__(self):
        return f"<{self.tag()} {self.value if self.ok else self.err}>"


class World:
    """The package under test (instrumented or real)."""

    def __init__(self, root):
        self.pkg = instrument.load(root, MODULES)
        self.root = root
        for m in MODULES:
            setattr(self, m.replace(".", "_"), sys.modules[root + "." + m])
        self.snapshot = instrument.Snapshot(root)

    def modules(self):
        return [m for n, m in list(sys.modules.items()) if m is not None and (n == self.root or n.startswith(self.root + "."))]


def where(e):
    t = e.__traceback__
    frames = []
    while t is not None:
        frames.append(f"{t.tb_frame.f_code.co_filename.rsplit('/', 1)[-1]}:{t.tb_lineno}")
        t = t.tb_next
    return " < ".join(frames[::-1][:8])


def outcome(fn, a, k):
    try:
        return Outcome(True, fn(*a, **k), None)
    except Control:
        raise
    except Exception as e:
        if type(e) is z3.Z3Exception:
            raise engine.PathIncomplete(f"engine error {e} at {where(e)}")
        return Outcome(False, None, e)


# --------------------------------------------------------------------------------------------------------------------


class Violation:
    def __init__(self, label, values, choices, randoms, trace):
        self.label = label
        self.values = values
        self.choices = choices
        self.randoms = randoms
        self.trace = trace


class SymCtx:
    symbolic = True

    def __init__(self, eng, world):
        self.eng = eng
        self.w = world
        self.names = {}
        self.inputs = []  # (name, symbolic value)
        self.choices = {}
        self.trace = []
        self.labels = []

    # -- inputs
    def _name(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return f"{name}.{k}" if k else name

    def _in(self, name, v):
        self.inputs.append((name, v))
        return v

    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        v = z3.Int(name)
        cs = []
        if lo is not None:
            cs.append(v >= lo)
        if hi is not None:
            cs.append(v <= hi)
        if cs:
            d = lo if lo is not None else hi
            self.eng.add(z3.And(cs) if len(cs) > 1 else cs[0], v, z3.IntVal(d))
        return self._in(name, SymInt(v))

    def id(self, name):
        return self.int(name, 1, ID_MAX)

    def bv(self, name, bits):
        """Unsigned integer of the given number of bits."""
        name = self._name(name)
        return self._in(name, SymBV(z3.ZeroExt(1, z3.BitVec(name, bits))))

    def sbv(self, name, bits):
        """Signed integer of the given number of bits."""
        name = self._name(name)
        return self._in(name, SymBV(z3.BitVec(name, bits)))

    def str(self, name):
        name = self._name(name)
        return self._in(name, SymStr(z3.String(name)))

    def bool(self, name):
        name = self._name(name)
        return self._in(name, SymBool(z3.Bool(name)))

    def bytes(self, name, n):
        name = self._name(name)
        return self._in(name, SymBytes([z3.BitVec(f"{name}.{i}", 8) for i in range(n)]))

    def chars(self, name, n):
        """ASCII text of length n."""
        name = self._name(name)
        bs = [z3.BitVec(f"{name}.{i}", 8) for i in range(n)]
        for b in bs:
            self.eng.add(z3.ULT(b, 128), b, z3.BitVecVal(0, 8))
        return self._in(name, SymCStr(bs))

    def choice(self, name, options):
        if not options:
            self.assume(False)
        name = self._name(name)
        i = self.eng.choose(len(options)) if len(options) > 1 else 0
        self.choices[name] = i
        return options[i]

    def any(self, name, kinds=KINDS, depth=1, ints=None):
        """A value a decoder may produce, of any of the given kinds."""
        name = self._name(name)
        return self._in(name, self._any(name, kinds, depth, ints))

    def _any(self, name, kinds, depth, ints=None):
        kvar = z3.Int(name + ".kind")
        ks = sorted(KIDX[k] for k in kinds)
        self.eng.add(z3.Or([kvar == i for i in ks]), kvar, z3.IntVal(ks[0]))

        def mk(kind):
            if kind == "bool":
                return SymBool(z3.Bool(name + ".b"))
            if kind == "int":
                v = z3.Int(name + ".i")
                if ints is not None:
                    self.eng.add(z3.And(v >= ints[0], v <= ints[1]), v, z3.IntVal(max(ints[0], min(1, ints[1]))))
                return SymInt(v)
            if kind == "float":
                return SymFloat(z3.Real(name + ".f"))
            if kind == "str":
                return SymStr(z3.String(name + ".s"))
            if kind == "bytes":
                return SymBytes([z3.BitVec(name + ".y", 8)])
            if kind == "list":
                if depth <= 0:
                    return []
                n = self.eng.choose(2)
                L = [self._any(f"{name}[{i}]", kinds, depth - 1, ints) for i in range(n)]
                a._parts["list.orig"] = tuple(L)
                return L
            if kind == "dict":
                return self._dict(name, kinds, depth - 1, ints)
            raise engine.EngineError(kind)

        a = SymAny(name, [k for k in KINDS if k in kinds], kvar, mk)
        a.plain = ["cbor"] + (["json"] if "bytes" not in kinds else []) + (
            ["msgpack"] if "int" not in kinds or ints is not None and ints[0] >= -(1 << 63) and ints[1] < 1 << 64 else [])
        return a

    def _dict(self, name, kinds, depth, ints=None, extra=None):
        def maker(key):
            n = f"{name}[{key!r}]"
            present = SymBool(z3.Bool(n + ".present"))
            return present, self._any(n, kinds if depth >= 0 else [k for k in kinds if k not in ("list", "dict")],
                                      depth, ints)

        return SymDict(base=OpenBase(maker, extra))

    def dict(self, name, kinds=KINDS, depth=0):
        """An arbitrary dictionary with text keys (entries appear when looked up by a constant key)."""
        name = self._name(name)
        return self._in(name, self._dict(name, kinds, depth))

    def open(self, name, pairs=(), reserved=()):
        """A dictionary with the given entries and any others, which appear when looked at (reserved keys aside)."""
        name = self._name(name)
        given = set(reserved) | {p[0] for p in pairs}

        def maker(key):
            if key in given:
                return False, None
            n = f"{name}[{key!r}]"
            return SymBool(z3.Bool(n + ".present")), self._any(n, SCALARS, 0)

        base = OpenBase(maker, "x_other")
        self._in(name, SymDict(base=base))
        d = self.mkdict(pairs)
        d.base = base
        d.pulled = set(given)
        return d

    def lazy(self, name, kind):
        """Absent arguments, or a list of up to one value (kind "list") or a dictionary (kind "dict"), decided when looked at."""
        name = self._name(name)
        kvar = z3.Int(name + ".kind")
        self.eng.add(z3.Or(kvar == KIDX["none"], kvar == KIDX[kind]), kvar, z3.IntVal(KIDX[kind]))

        def mk(k):
            if kind == "dict":
                return self._dict(name, SCALARS, 0, None, "x_other")
            L = [self._any(name + "[0]", SCALARS, 0)] if self.eng.choose(2) else []
            a._parts["list.orig"] = tuple(L)
            return L

        a = SymAny(name, ["none", kind], kvar, mk)
        return self._in(name, a)

    def mkdict(self, pairs):
        """A dictionary with the given (key, value[, presence]) entries (symbolic keys must be assumed distinct)."""
        return SymDict([[p[0], p[1], p[2] if len(p) > 2 else True] for p in pairs])

    def encoded(self, codec, value):
        from .hooks import SymBlob

        return (SymText if codec == "json" else SymBlob)(codec, value)

    def malformed(self, codec):
        from .hooks import MALFORMED

        return self.encoded(codec, MALFORMED)

    # -- steering and checking
    def f(self, fn, *a, **k):
        """Call a library function on possibly symbolic values."""
        from . import hooks

        return hooks.call(fn, *a, **k)

    def call(self, fn, *a, **k):
        o = outcome(fn, a, k)
        self.trace.append(o.tag())
        self.eng.stats.checks += 0
        return o

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            self.eng.stats.stopped += 1
            raise PathStop()
        self.eng.assume(zbool(cond))

    def reach(self, label):
        if self.eng.fresh() or label not in self.eng.stats.reached:
            self.eng.stats.reached[label] = self.eng.stats.reached.get(label, 0) + 1

    def draws(self):
        """[(source, value, number of equally likely values)] of every random draw so far."""
        return list(self.eng.path_vars.get("draws", []))

    def note(self, tag, value):
        self.trace.append((tag, value))

    def check(self, cond, label):
        eng = self.eng
        if not eng.fresh():
            return
        eng.stats.checks += 1
        if cond is True:
            eng.stats.discharged += 1
            return
        if type(cond) is SymBool:
            ok, model = eng.entails(cond.e)
            if ok:
                eng.stats.discharged += 1
                return
            if ok is None:
                raise engine.PathIncomplete("solver gave no answer for: " + label)
        elif cond is False or not cond:
            model = eng.path_model()
            if model is None:
                raise engine.PathIncomplete("no model for: " + label)
        else:
            eng.stats.discharged += 1
            return
        eng.violations.append(self.witness(model, label))
        raise PathStop()

    def witness(self, model, label=None):
        values = {n: realise(v, model) for n, v in self.inputs}
        rnd = [(k, realise(v, model)) for k, v in self.eng.path_vars.get("random", [])]
        trace = [t if type(t) is str else (t[0], realise(t[1], model)) for t in self.trace]
        return Violation(label, values, dict(self.choices), rnd, trace)


def _bval(model, e):
    return z3.is_true(model.eval(e, model_completion=True))


def realise(v, model):
    """The concrete value of a symbolic one under a model."""
    t = type(v)
    if t is SymBool:
        return _bval(model, v.e)
    if t is SymInt:
        return model.eval(v.e, model_completion=True).as_long()
    if t is SymBV:
        return model.eval(v.e, model_completion=True).as_signed_long()
    if t is SymFloat:
        x = model.eval(v.e, model_completion=True)
        x = x if not hasattr(x, "approx") or z3.is_rational_value(x) else x.approx(20)
        return float(fractions.Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if t is SymStr:
        return sym.from_zstr(model.eval(v.e, model_completion=True))
    if t is SymTextBytes:
        return realise(v.text, model).encode("utf-8", "surrogatepass")
    if t is SymBytes:
        b = bytes(x if type(x) is int else model.eval(x, model_completion=True).as_long() for x in v.b)
        return bytearray(b) if v.mutable else b
    if t is SymCStr:
        out = []
        for c in v.c:
            c = sym.char_code(c)
            out.append(chr(c if type(c) is int else model.eval(c, model_completion=True).as_long()))
        return "".join(out)
    if t is SymB64:
        return base64.b64encode(realise(v.raw, model)).decode()
    if t is SymB64Bytes:
        return realise(v.text, model).encode()
    if t is SymAny:
        k = KINDS[model.eval(v.kvar, model_completion=True).as_long()]
        if k == "none":
            return None
        p = v._parts.get(k, None)
        if p is None:
            return {"bool": False, "int": 1, "float": 0.5, "str": "", "bytes": b"", "list": [], "dict": {}}[k]
        if k == "list":
            return [realise(x, model) for x in v._parts.get("list.orig", p)]
        return realise(p, model)
    if t in (SymDict, SymDefaultDict):
        if v.orig is not None:  # an input: its content before the code changed it
            return _open(v.orig, model)
        d = {}
        for k, x, p in v.items_:
            if p is True or _bval(model, p.e):
                d[realise(k, model)] = realise(x, model)
        return d
    if t is SymSet:
        return {realise(x, model) for x in v.items_}
    if isinstance(v, SymText):
        from .hooks import MALFORMED

        if v.value is MALFORMED:
            return MALFORMED_REAL[v.codec]
        return ENCODE[v.codec](realise(v.value, model))
    if t is list:
        return [realise(x, model) for x in v]
    if t is tuple:
        return tuple(realise(x, model) for x in v)
    if t is dict:
        return {realise(k, model): realise(x, model) for k, x in v.items()}
    return v


def _open(base, model):
    d = {}
    for k, (present, x) in base.entries.items():
        if present is True or _bval(model, present.e):
            d[k] = realise(x, model)
    return d


ENCODE = {"json": json.dumps, "cbor": cbor2.dumps, "msgpack": msgpack.dumps}
MALFORMED_REAL = {"json": "[1, ", "cbor": b"\x82\x01", "msgpack": b"\x92\x01"}


# --------------------------------------------------------------------------------------------------------------------


class CheckFailed(Control):
    def __init__(self, label):
        super().__init__(label)
        self.label = label


class Diverged(Control):
    """The concrete run asks for something the symbolic run did not."""


class ConCtx:
    symbolic = False

    def __init__(self, world, values, choices):
        self.w = world
        self.values = values
        self.choices_ = choices
        self.names = {}
        self.trace = []
        self.labels = []

    def _name(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return f"{name}.{k}" if k else name

    def _get(self, name, default):
        name = self._name(name)
        if name in self.values:
            return deepcopy(self.values[name])
        return default

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else hi if hi is not None else 0)

    def id(self, name):
        return self._get(name, 1)

    def bv(self, name, bits):
        return self._get(name, 0)

    sbv = bv

    def str(self, name):
        return self._get(name, "")

    def bool(self, name):
        return self._get(name, False)

    def bytes(self, name, n):
        return self._get(name, bytes(n))

    def chars(self, name, n):
        return self._get(name, "\0" * n)

    def choice(self, name, options):
        if not options:
            raise PathStop()
        name = self._name(name)
        return options[self.choices_.get(name, 0)]

    def any(self, name, kinds=KINDS, depth=1, ints=None):
        return self._get(name, None)

    def dict(self, name, kinds=KINDS, depth=0):
        return self._get(name, {})

    def open(self, name, pairs=(), reserved=()):
        d = self.mkdict(pairs)
        for k, v in self._get(name, {}).items():
            d[k] = v
        return d

    def lazy(self, name, kind):
        return self._get(name, None)

    def mkdict(self, pairs):
        return {p[0]: p[1] for p in pairs if len(p) < 3 or p[2]}

    def encoded(self, codec, value):
        return ENCODE[codec](value)

    def malformed(self, codec):
        return MALFORMED_REAL[codec]

    def f(self, fn, *a, **k):
        return fn(*a, **k)

    def call(self, fn, *a, **k):
        o = outcome(fn, a, k)
        self.trace.append(o.tag())
        return o

    def assume(self, cond):
        if not cond:
            raise PathStop()

    def reach(self, label):
        self.labels.append(label)

    def draws(self):
        return list(self.randoms.draws)

    def note(self, tag, value):
        self.trace.append((tag, value))

    def check(self, cond, label):
        if not cond:
            raise CheckFailed(label)


def deepcopy(x):
    if type(x) is list:
        return [deepcopy(y) for y in x]
    if type(x) is dict:
        return {k: deepcopy(v) for k, v in x.items()}
    if type(x) is bytearray:
        return bytearray(x)
    return x


class Frozen(datetime.datetime):
    """The clock the encoding uses (see hooks)."""

    @classmethod
    def utcnow(cls):
        return datetime.datetime(2024, 1, 2, 3, 4, 5, 678901)

    @classmethod
    def now(cls, tz=None):
        return datetime.datetime(2024, 1, 2, 3, 4, 5, 678901, tz)


class Randoms:
    """Replaces the random sources by the recorded outcomes (then falls back to the real ones)."""

    def __init__(self, seq, world):
        self.seq = list(seq)
        self.world = world
        self.draws = []
        self.inside = False

    def _next(self, kind):
        if self.seq and self.seq[0][0] == kind:
            return self.seq.pop(0)[1]
        return None

    def __enter__(self):
        self.saved = []
        replaced = {}

        def patch(o, n, f, source):
            real = getattr(o, n)

            def g(*a, **k):
                if self.inside:
                    return real(*a, **k)
                self.inside = True
                try:
                    v, size = f(real, *a, **k)
                finally:
                    self.inside = False
                self.draws.append((source, v, size))
                return v

            self.saved.append((o, n, o.__dict__[n]))
            setattr(o, n, g)
            replaced[id(real)] = g

        def byts(arg):
            def f(real, *a):
                n = a[-1] if a[arg:] and a[-1] is not None else 32
                v = self._next("bytes")
                return real(*a) if v is None or len(v) != n else v, 1 << (8 * n)
            return f

        def ints(arg, fix):
            def f(real, *a):
                v = self._next("int")
                lo, hi = fix(*a[arg:])
                return (v if v is not None and lo <= v <= hi else real(*a)), hi - lo + 1
            return f

        rng = lambda a, b=None, s=1: (a, b - 1) if b is not None else (0, a - 1)
        for o, i, source in ((random, 0, "prng"), (random.SystemRandom, 1, "system"), (random.Random, 1, "prng")):
            for n, f in (("randbytes", byts(i)), ("randint", ints(i, lambda a, b: (a, b))), ("randrange", ints(i, rng)),
                         ("getrandbits", ints(i, lambda k: (0, (1 << k) - 1)))):
                if n in o.__dict__:
                    patch(o, n, f, source)
        for n in ("randint", "randrange"):  # SystemRandom inherits these
            real = random.Random.__dict__[n]
            setattr(random.Random, n, self._by_class(real))
        patch(os, "urandom", byts(0), "system")
        patch(secrets, "token_bytes", byts(0), "system")
        patch(secrets, "randbelow", ints(0, lambda k: (0, k - 1)), "system")
        patch(secrets, "randbits", ints(0, lambda k: (0, (1 << k) - 1)), "system")
        patch(nacl.utils, "random", byts(0), "system")
        real = datetime.datetime
        self.saved.append((datetime, "datetime", real))
        datetime.datetime = replaced[id(real)] = Frozen
        for n, v in (("time", 1704164645.678901), ("monotonic", 1000.0), ("perf_counter", 1000.0)):
            real = getattr(time, n)
            self.saved.append((time, n, real))
            replaced[id(real)] = lambda v=v: v
            setattr(time, n, replaced[id(real)])
        for m in [nacl.signing] + self.world.modules():
            for n, v in list(vars(m).items()):
                if id(v) in replaced:
                    self.saved.append((m, n, v))
                    setattr(m, n, replaced[id(v)])
        return self

    def _by_class(self, f):
        def g(s, *a, **k):
            n = len(self.draws)
            v = f(s, *a, **k)
            if len(self.draws) > n and isinstance(s, random.SystemRandom):
                self.draws[-1] = ("system",) + self.draws[-1][1:]
            return v
        return g

    def __exit__(self, *a):
        for o, n, real in reversed(self.saved):
            if real is None:
                delattr(o, n)
            else:
                setattr(o, n, real)


def run_concrete(fn, world, values, choices, randoms):
    """Run a harness on the unmodified code.  Returns (status, label, trace)."""
    world.snapshot.restore()
    ctx = ConCtx(world, values, choices)
    with Randoms(randoms, world) as r:
        ctx.randoms = r
        try:
            fn(ctx)
            return "pass", None, ctx
        except CheckFailed as e:
            return "fail", e.label, ctx
        except PathStop:
            return "stop", None, ctx
        except Exception as e:
            return "fail", "no exception while a result is read: " + repr(e)[:200], ctx
