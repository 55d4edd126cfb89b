"""Run-time support for the rewritten sources: operations on possibly symbolic values, and environment stubs."""
import base64
import binascii
import builtins
import collections
import copy
import dataclasses
import datetime
import enum
import functools
import hashlib
import hmac
import json
import math
import operator
import os
import random
import secrets
import string
import struct
import time
import types
import uuid

import cbor2
import msgpack
import nacl.exceptions
import nacl.signing
import nacl.utils

from . import engine
from .engine import Control, PathIncomplete, z3  # noqa: F401
from . import sym
from .sym import (
    OPAQUE, SYM_TYPES, SymAny, SymB64, SymB64Bytes, SymBool, SymBV, SymBytes, SymCStr, SymDefaultDict, SymDict,
    SymFloat, SymInt, SymLog2, SymSet, SymStr, SymText, SymTextBytes, SymType, SymTypeName, SymView, _small,
    bytes_from_ints, concat_str, deep_sym, eq, hex_nibble, hexlify_terms, land, lnot, lor, mkbool, mkint, pytype,
    sym_contains, sym_len, to_str, truth, zstr,
)


def E():
    return engine.ENG


def res(x):
    return x.resolve() if type(x) is SymAny else x


resolve = res


# --------------------------------------------------------------------------------------------------------------------
# operators


def in_(x, c):
    if isinstance(c, enum.EnumMeta):
        return sym_contains([m.value for m in c] + list(c), x) if type(x) in SYM_TYPES else x in c
    return sym_contains(c, x)


def not_in(x, c):
    return lnot(in_(x, c))


def is_(a, b):
    ta, tb = type(a), type(b)
    if ta not in SYM_TYPES and tb not in SYM_TYPES:
        return a is b
    if a is b:
        return True
    if ta is SymAny and b is None:
        return a.eq_formula(None)
    if tb is SymAny and a is None:
        return b.eq_formula(None)
    if ta is SymAny or tb is SymAny:
        return is_(res(a), res(b))
    if ta in (SymType,) or tb in (SymType,):
        return a == b
    if ta is SymBool and (b is True or b is False or tb is SymBool):
        return a == b
    if tb is SymBool and (a is True or a is False):
        return b == a
    return False


def is_not(a, b):
    return lnot(is_(a, b))


def getitem(o, k):
    to, tk = type(o), type(k)
    if to not in SYM_TYPES and tk not in SYM_TYPES and tk is not slice:
        if tk is tuple and isinstance(o, dict) and deep_sym(k):
            return _raw_dict_find(o, k, KeyError(k))
        return o[k]
    if tk is SymAny:
        return getitem(o, k.resolve())
    if to is SymAny:
        return getitem(o.resolve(), k)
    if tk is slice:
        if any(type(x) in SYM_TYPES for x in (k.start, k.stop, k.step)) and to is not SymStr:
            k = slice(*[_small(x) if type(x) in SYM_TYPES else x for x in (k.start, k.stop, k.step)])
        return o[k]
    if to in SYM_TYPES:
        return o[k]
    if isinstance(o, dict):
        return _raw_dict_find(o, k, KeyError(k))
    if isinstance(o, (list, tuple, str, bytes, bytearray, range)):
        if tk in (SymInt, SymBV, SymBool):
            if tk is SymBool:
                return o[1] if bool(k) else o[0]
            n = len(o)
            if not bool(land(k >= -n, k < n)):
                raise IndexError("index out of range")
            return o[_small(k)]
        raise TypeError(f"indices must be integers or slices, not {pytype(k).__name__}")
    return o[k]


def _raw_dict_find(d, key, default, want_key=False):
    if sym.unhashable(key):
        raise TypeError(f"unhashable type: '{pytype(key).__name__}'")
    for kk in list(d):
        if bool(eq(kk, key)):
            return kk if want_key else d[kk]
    if isinstance(default, KeyError):
        raise default
    return default


def mkdict(pairs):
    d = SymDict()
    for p in pairs:
        if len(p) == 1:
            o = res(p[0])
            if not hasattr(o, "keys"):
                raise TypeError(f"'{pytype(o).__name__}' object is not a mapping")
            d.update(o)
        else:
            d[p[0]] = p[1]
    return d


def mkset(items):
    return SymSet(items)


def fstr(*parts):
    if not any(type(p) is tuple and _fmt_sym(p[0]) for p in parts):
        return "".join(p if type(p) is str else _fmt(*p) for p in parts)
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
        else:
            v, conv, spec = p
            if type(v) in SYM_TYPES and conv in (-1, 115) and type(spec) is str:
                s = sym.to_spec(v, spec)
                if s is OPAQUE:
                    return OPAQUE
                out.append(s)
            elif _fmt_sym(v):
                return OPAQUE
            else:
                out.append(_fmt(v, conv, spec))
    try:
        return concat_str(out)
    except PathIncomplete:
        return OPAQUE


def _fmt_sym(v):
    return deep_sym(v) or not isinstance(v, (str, int, float, bytes, list, dict, tuple, type, type(None), BaseException)) \
        and not _plain(v)


def _plain(v):
    return type(v).__module__ != "builtins" and not hasattr(v, "__dict__")


def _fmt(v, conv=-1, spec=""):
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = str(v)
    elif conv == 97:
        v = ascii(v)
    return format(v, spec)


def mod(a, b):
    if isinstance(a, str) and type(a) not in SYM_TYPES:
        if not deep_sym(b):
            return a % b
        args = list(b) if type(b) is tuple else [b]
        out = []
        i = 0
        while i < len(a):
            c = a[i]
            if c == "%" and i + 1 < len(a):
                d = a[i + 1]
                i += 2
                if d == "%":
                    out.append("%")
                elif d in "sd" and args:
                    out.append(to_str(args.pop(0)))
                else:
                    j = i - 1
                    while j < len(a) and a[j] in "#0123456789":
                        j += 1
                    if j >= len(a) or a[j] not in "xXd" or not args:
                        return OPAQUE
                    v = args.pop(0)
                    out.append(sym.to_spec(v, a[i - 1 : j + 1]) if type(v) in SYM_TYPES else ("%" + a[i - 1 : j + 1]) % v)
                    i = j + 1
                continue
            out.append(c)
            i += 1
        return OPAQUE if any(o is OPAQUE for o in out) else concat_str(out)
    return a % b


# --------------------------------------------------------------------------------------------------------------------
# calls

HOOKS = {}
_KEEP = []


def hook(*fs):
    def deco(h):
        for f in fs:
            _KEEP.append(f)
            HOOKS[id(f)] = h
        return h

    return deco


BMT = types.BuiltinFunctionType
MD = (type(str.lower), type(dict.__len__))
_fallthrough = object()


def call(f, /, *a, **k):
    h = HOOKS.get(id(f))
    if h is not None:
        return h(*a, **k)
    t = type(f)
    if t is types.FunctionType:
        return f(*a, **k)
    if t is BMT:
        s = f.__self__
        if s is not None and not isinstance(s, types.ModuleType):
            if isinstance(s, random.Random):
                h = (SYSTEM if isinstance(s, random.SystemRandom) else RANDOM).get(f.__name__)
                if h is not None:
                    return h(*a, **k)
            r = _builtin_method(f, s, a, k)
            if r is not _fallthrough:
                return r
        elif a and (deep_sym(a) or deep_sym(k)) and getattr(f, "__module__", None) not in SAFE_MODULES:
            raise PathIncomplete(f"builtin {f.__module__}.{f.__name__} on symbolic value")
        return f(*a, **k)
    if t is types.MethodType:
        s = f.__self__
        ts = type(s)
        if ts.__module__.startswith("nacl."):
            return _nacl_method(s, f.__name__, f, a, k)
        if s is nacl.signing.SigningKey and f.__name__ == "generate":
            return nacl_signing_key(rand_bytes(32, "system"))
        if isinstance(s, random.Random):
            h = (SYSTEM if isinstance(s, random.SystemRandom) else RANDOM).get(f.__name__)
            if h is not None:
                return h(*a, **k)
        return f(*a, **k)
    if t in MD:
        if a and type(a[0]) in SYM_TYPES:
            return call(getattr(res(a[0]), f.__name__), *a[1:], **k)
        if a and (deep_sym(a[1:])):
            return call(getattr(a[0], f.__name__), *a[1:], **k)
        return f(*a, **k)
    if t is enum.EnumMeta or (isinstance(f, enum.EnumMeta) and not k and len(a) == 1):
        if len(a) == 1 and type(a[0]) in SYM_TYPES:
            for m in f:
                if bool(eq(a[0], m.value)):
                    return m
            raise ValueError(f"{OPAQUE} is not a valid {f.__name__}")
    if t is functools.partial and id(f.func) in HOOKS:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    return f(*a, **k)


SAFE_MODULES = {"_abc", "_operator", "_functools", "itertools", "_thread", "_weakref", "sys", "time", "gc", "_collections"}


def _builtin_method(f, s, a, k):
    n = f.__name__
    if isinstance(s, type):
        if s is int and n == "from_bytes":
            return int_from_bytes(*a, **k)
        if s in (bytes, bytearray) and n == "fromhex" and deep_sym(a):
            return unhexlify(a[0], fromhex=True)
        if s is dict and n == "fromkeys":
            return mkdict([(x, a[1] if len(a) > 1 else None) for x in a[0]])
        if s is str and n == "maketrans":
            return _fallthrough
        if issubclass(s, datetime.datetime) and n in ("utcnow", "now"):
            tz = a[0] if a else k.get("tz")
            return datetime.datetime(2024, 1, 2, 3, 4, 5, 678901, tz)
        return _fallthrough
    ts = type(s)
    if ts in SYM_TYPES:
        return _fallthrough
    if isinstance(s, struct.Struct) and n in ("pack", "unpack", "unpack_from") and deep_sym(a):
        return HOOKS[id(getattr(struct, n))](s.format, *a, **k)
    if isinstance(s, random.Random):
        h = RANDOM.get(n)
        if h is not None:
            return h(*a, **k)
        return _fallthrough
    if not deep_sym(a) and not deep_sym(k):
        # an iterator or view handed to str.join etc.
        if n == "join" and ts in (str, bytes) and a and not isinstance(a[0], (list, tuple, str)):
            a = (list(a[0]),)
            if not deep_sym(a):
                return f(*a)
        elif n == "format" and ts is str and any(_fmt_sym(x) for x in list(a) + list(k.values())):
            return OPAQUE
        else:
            return _fallthrough
    if isinstance(s, str):
        s = str.__str__(s)
        if n == "join":
            items = [res(x) for x in a[0]]
            parts = []
            for i, x in enumerate(items):
                if i and s:
                    parts.append(s)
                if not isinstance(x, str):
                    raise TypeError(f"sequence item {i}: expected str instance, {pytype(x).__name__} found")
                parts.append(x)
            return concat_str(parts)
        if n == "format":
            return _format(s, a, k)
        if n in ("startswith", "endswith", "find", "removeprefix", "removesuffix"):
            return getattr(SymStr(zstr(s)), n)(*a)
        raise PathIncomplete("str." + n)
    if isinstance(s, (bytes, bytearray)):
        if n == "join":
            out = []
            for i, x in enumerate(list(a[0])):
                if i:
                    out.extend(s)
                t = SymBytes._terms(x)
                if t is None:
                    raise PathIncomplete("bytes.join")
                out.extend(t)
            return SymBytes(out)
        if n in ("startswith", "endswith"):
            return getattr(SymBytes(list(s)), n)(*a)
        if n in ("extend", "append"):
            raise PathIncomplete("concrete bytearray receives symbolic data")
        raise PathIncomplete("bytes." + n)
    if isinstance(s, dict):
        if a and (type(a[0]) in SYM_TYPES or type(a[0]) is tuple and deep_sym(a[0])):
            key = res(a[0])
            if n in ("get", "pop", "__getitem__", "__contains__"):
                kk = _raw_dict_find(s, key, _fallthrough, True)
                if kk is not _fallthrough:
                    return f(kk)
                if n == "__contains__":
                    return False
                if n == "get":
                    return a[1] if len(a) > 1 else None
                if len(a) > 1:
                    return a[1]
                raise KeyError(key)
            raise PathIncomplete("concrete dict receives symbolic key")
        return _fallthrough
    if isinstance(s, (set, frozenset)):
        raise PathIncomplete("concrete set receives symbolic value")
    return _fallthrough


def _format(s, a, k):
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if conv not in (None, "s") or not (field == "" or field.isidentifier() or field.isdigit()):
            return OPAQUE
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        else:
            v = k[field]
        if type(v) in SYM_TYPES:
            v = sym.to_spec(v, spec)
            if v is OPAQUE:
                return OPAQUE
        elif _fmt_sym(v):
            return OPAQUE
        else:
            v = format(v, spec)
        out.append(v)
    try:
        return concat_str(out)
    except PathIncomplete:
        return OPAQUE


# -- builtins


@hook(isinstance)
def h_isinstance(x, t):
    if type(x) is SymAny:
        return x.isinstance_(t)
    if type(x) is SymType:
        return isinstance(object, t)
    return isinstance(x, t)


@hook(issubclass)
def h_issubclass(c, t):
    if type(c) is SymType:
        return c.x.isinstance_(t)
    return issubclass(c, t)


@hook(type)
def h_type(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is SymAny and x._r is sym._MISSING:
            return SymType(x)
        return pytype(x)
    return type(*a, **k)


@hook(len)
def h_len(x):
    return sym_len(x)


@hook(bool)
def h_bool(x=False):
    if type(x) in SYM_TYPES:
        return truth(x)
    return bool(x)


@hook(int)
def h_int(x=0, *a, **k):
    x = res(x)
    t = type(x)
    if t not in SYM_TYPES:
        return int(x, *a, **k)
    if t in (SymInt, SymBV):
        return x
    if t is SymBool:
        return x._int()
    if t in (SymFloat, SymLog2):
        return x.__int__()
    if t is SymCStr:
        base = a[0] if a else k.get("base", 10)
        if base == 16 and len(x):
            v = 0
            for c in x.c:
                n = hex_nibble(c)
                if n is None:
                    raise PathIncomplete("int(text, 16)")
                v = v * 16 + SymBV(z3.simplify(z3.ZeroExt(1, n)))
            return v
        raise PathIncomplete("int(text)")
    if t is SymStr:
        # decimal digits only are modelled exactly; everything else is given up
        if bool(mkbool(z3.InRe(x.e, z3.Plus(z3.Range("0", "9"))))):
            return mkint(z3.StrToInt(x.e))
        raise PathIncomplete("int(text)")
    raise TypeError(f"int() argument must be a string, a bytes-like object or a real number, not '{pytype(x).__name__}'")


@hook(float)
def h_float(x=0.0):
    x = res(x)
    if type(x) is SymInt:
        return SymFloat(z3.ToReal(x.e))
    if type(x) is SymBV:
        return SymFloat(z3.ToReal(x.to_int().e))
    if type(x) in (SymFloat, SymLog2):
        return x
    if type(x) in SYM_TYPES:
        raise PathIncomplete("float()")
    return float(x)


@hook(str)
def h_str(*a, **k):
    if not a:
        return str(*a, **k)
    x = res(a[0])
    if len(a) > 1 or k:
        if type(x) in SYM_TYPES:
            return x.decode(*a[1:], **k)
        return str(x, *a[1:], **k)
    if type(x) in SYM_TYPES:
        return to_str(x)
    if _fmt_sym(x):
        return OPAQUE
    return str(x)


@hook(repr, ascii)
def h_repr(x):
    if type(x) in (SymInt, SymBV, SymBool):
        return to_str(x)
    if _fmt_sym(x):
        return OPAQUE
    return repr(x)


@hook(format)
def h_format(x, spec=""):
    if type(x) in SYM_TYPES:
        return sym.to_spec(x, spec)
    return format(x, spec)


@hook(print)
def h_print(*a, **k):
    return None


def _bytes_like(x):
    x = res(x)
    if type(x) in (SymBytes, SymTextBytes, SymB64Bytes, bytes, bytearray):
        return x
    return None


@hook(bytes)
def h_bytes(*a, **k):
    if not a:
        return bytes(*a, **k)
    x = res(a[0])
    t = type(x)
    if t in (SymBytes,):
        return SymBytes(list(x.b))
    if t in (SymTextBytes, SymB64Bytes):
        return x
    if t in (SymInt, SymBV):
        return bytes(_small(x))
    if isinstance(x, str):
        return call(x.encode, *a[1:], **k)
    if t in (bytes, bytearray, int, bool, memoryview):
        return bytes(x)
    items = list(x)
    if deep_sym(items):
        return bytes_from_ints(items)
    return bytes(items)


@hook(bytearray)
def h_bytearray(*a, **k):
    if not a:
        return SymBytes([], True)
    b = h_bytes(*a, **k)
    return SymBytes(list(b.b) if type(b) is SymBytes else list(b), True)


@hook(memoryview)
def h_memoryview(x):
    if type(x) in SYM_TYPES:
        return x
    return memoryview(x)


@hook(list)
def h_list(x=()):
    return list(res(x))


@hook(tuple)
def h_tuple(x=()):
    return tuple(res(x))


@hook(dict, collections.OrderedDict)
def h_dict(*a, **k):
    d = SymDict()
    d.update(*[res(x) for x in a], **k)
    return d


@hook(set)
def h_set(x=()):
    return SymSet(res(x))


@hook(frozenset)
def h_frozenset(x=()):
    return SymSet(res(x), True)


def factory(f):
    if f in (dict, collections.OrderedDict):
        return SymDict
    if f is set:
        return SymSet
    if f is collections.defaultdict:
        return SymDefaultDict
    if id(f) in HOOKS:
        return HOOKS[id(f)]
    return f


@hook(collections.defaultdict)
def h_defaultdict(f=None, *a, **k):
    return SymDefaultDict(factory(f) if f is not None else None, *a, **k)


@hook(dataclasses.field)
def h_field(**k):
    if "default_factory" in k:
        k["default_factory"] = factory(k["default_factory"])
    return dataclasses.field(**k)


@hook(types.MappingProxyType)
def h_mappingproxy(d):
    return d if type(d) in SYM_TYPES else types.MappingProxyType(d)


@hook(functools.partial)
def h_partial(f, *a, **k):
    if id(f) in HOOKS:
        return lambda *b, **kk: call(f, *a, *b, **{**k, **kk})
    return functools.partial(f, *a, **k)


@hook(range)
def h_range(*a):
    return range(*[_small(res(x)) if type(x) in SYM_TYPES else x for x in a])


@hook(map)
def h_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


@hook(filter)
def h_filter(f, it):
    return (x for x in it if (x if f is None else call(f, x)))


@hook(sorted)
def h_sorted(it, **k):
    if k.get("key") is not None:
        key = k["key"]
        k = dict(k, key=lambda x: call(key, x))
    return sorted(res(it), **k)


def _natural(f):
    def h(*a, **k):
        return f(*a, **k)

    return h


for _f in (
    any, all, sum, abs, divmod, enumerate, zip, reversed, iter, next, getattr, setattr, hasattr, callable, id, hash,
    pow, round, property, classmethod, staticmethod, object, slice, vars, delattr, max, min, copy.copy, copy.deepcopy,
):
    hook(_f)(_natural(_f))


@hook(max)
def h_max(*a, **k):
    if k.get("key") is not None:
        key = k["key"]
        k = dict(k, key=lambda x: call(key, x))
    return max(*[res(x) for x in a], **k)


@hook(min)
def h_min(*a, **k):
    if k.get("key") is not None:
        key = k["key"]
        k = dict(k, key=lambda x: call(key, x))
    return min(*[res(x) for x in a], **k)


@hook(ord)
def h_ord(x):
    x = res(x)
    if type(x) is SymCStr and len(x) == 1:
        c = sym.char_code(x.c[0])
        return c if type(c) is int else SymBV(z3.ZeroExt(1, c))
    if type(x) in SYM_TYPES:
        raise PathIncomplete("ord")
    return ord(x)


@hook(chr)
def h_chr(x):
    if type(x) in (SymInt, SymBV):
        if bool(land(x >= 0, x < 128)):
            return SymCStr([sym._byte_term(x)])
        raise PathIncomplete("chr")
    return chr(x)


@hook(bin)
def h_bin(x):
    if type(x) in SYM_TYPES:
        raise PathIncomplete("bin")
    return bin(x)


@hook(oct)
def h_oct(x):
    if type(x) in SYM_TYPES:
        raise PathIncomplete("oct")
    return oct(x)


@hook(hex)
def h_hex(x):
    if type(x) in SYM_TYPES:
        r = sym.hex_text(x, 0, "x")
        return r if r is OPAQUE else SymCStr([48, 120]) + r
    return hex(x)


@hook(operator.contains)
def h_contains(c, x):
    return in_(x, c)


@hook(operator.getitem)
def h_getitem(c, x):
    return getitem(c, x)


@hook(operator.is_)
def h_is(a, b):
    return is_(a, b)


@hook(operator.eq)
def h_eq(a, b):
    return a == b


@hook(operator.ne)
def h_ne(a, b):
    return a != b


@hook(operator.not_)
def h_not(a):
    return lnot(truth(a))


@hook(operator.truth)
def h_truth(a):
    return truth(a)


# -- numbers


@hook(math.log2)
def h_log2(x):
    x = res(x)
    if type(x) in (SymInt, SymBV):
        if bool(x <= 0):
            raise ValueError("math domain error")
        if bool(x >= (1 << 48)):
            raise PathIncomplete("log2 of a large integer")
        return SymLog2(x)
    if type(x) in SYM_TYPES:
        raise PathIncomplete("log2")
    return math.log2(x)


@hook(math.log)
def h_log(x, *a):
    if type(x) in SYM_TYPES:
        if a and a[0] == 2:
            return h_log2(x)  # inexact at some powers of two: left to validation
        raise PathIncomplete("math.log")
    return math.log(x, *a)


@hook(math.floor, math.trunc)
def h_floor(x):
    if type(x) in (SymLog2, SymFloat):
        return x.__floor__()
    if type(x) in (SymInt, SymBV):
        return x
    return math.floor(x)


@hook(math.ceil)
def h_ceil(x):
    if type(x) is SymLog2:
        return x.__ceil__()
    if type(x) in (SymInt, SymBV):
        return x
    if type(x) in SYM_TYPES:
        raise PathIncomplete("ceil")
    return math.ceil(x)


def int_from_bytes(b, byteorder="big", *, signed=False):
    b = res(b)
    if type(b) is SymBytes:
        ts = list(b.b)
    elif type(b) in (bytes, bytearray) or not isinstance(b, (SymTextBytes, SymB64Bytes)):
        items = list(b)
        if not deep_sym(items):
            return int.from_bytes(bytes(items), byteorder, signed=signed)
        ts = bytes_from_ints(items).b
    else:
        raise PathIncomplete("int.from_bytes")
    if not ts:
        return 0
    if byteorder == "little":
        ts.reverse()
    elif byteorder != "big":
        raise ValueError("byteorder must be either 'little' or 'big'")
    ts = [z3.BitVecVal(t, 8) if type(t) is int else t for t in ts]
    e = z3.Concat(*ts) if len(ts) > 1 else ts[0]
    if not signed:
        e = z3.ZeroExt(1, e)
    return sym.mkbv(e)


_STRUCT = {"B": (1, False), "b": (1, True), "H": (2, False), "h": (2, True), "I": (4, False), "i": (4, True),
           "L": (4, False), "l": (4, True), "Q": (8, False), "q": (8, True)}


def _struct_items(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "big"
    if fmt[:1] in "<>!=@":
        if fmt[0] == "<":
            order = "little"
        elif fmt[0] in "=@":
            raise PathIncomplete("struct format")
        fmt = fmt[1:]
    elif len(fmt) > 1:
        raise PathIncomplete("struct format")
    out = []
    i = 0
    while i < len(fmt):
        n = ""
        while fmt[i].isdigit():
            n += fmt[i]
            i += 1
        c = fmt[i]
        i += 1
        if c == "x":
            out.extend([("x", 1, False)] * int(n or 1))
        elif c == "s":
            out.append(("s", int(n or 1), False))
        elif c in _STRUCT:
            out.extend([(c,) + _STRUCT[c]] * int(n or 1))
        else:
            raise PathIncomplete("struct format")
    return order, out


@hook(struct.pack)
def h_pack(fmt, *a):
    if not deep_sym(a):
        return struct.pack(fmt, *a)
    order, items = _struct_items(fmt)
    a = [res(x) for x in a]
    if len([1 for c, _, _ in items if c != "x"]) != len(a):
        raise struct.error("pack expected a different number of items")
    out = []
    for c, n, signed in items:
        if c == "x":
            out.append(0)
            continue
        v = a.pop(0)
        if c == "s":
            t = SymBytes._terms(v)
            if t is None:
                raise struct.error("argument for 's' must be a bytes object")
            out.extend((t + [0] * n)[:n])
            continue
        if not isinstance(v, int):
            raise struct.error("required argument is not an integer")
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
        if not bool(land(v >= lo, v <= hi)):
            raise struct.error("argument out of range")
        bs = [(v >> (8 * i)) & 0xFF for i in range(n)]
        if order == "big":
            bs.reverse()
        out.extend(bytes_from_ints_nocheck(bs))
    return SymBytes(out)


def bytes_from_ints_nocheck(items):
    return [x if type(x) is int else sym._byte_term(x) for x in items]


@hook(struct.unpack)
def h_unpack(fmt, b):
    b = res(b)
    if not deep_sym(b):
        return struct.unpack(fmt, b)
    order, items = _struct_items(fmt)
    ts = SymBytes._terms(b)
    if ts is None or len(ts) != sum(n for _, n, _ in items):
        raise struct.error("unpack requires a buffer of a different size")
    out = []
    i = 0
    for c, n, signed in items:
        seg = SymBytes(ts[i: i + n])
        i += n
        if c == "x":
            continue
        out.append(seg if c == "s" else int_from_bytes(seg, order, signed=signed))
    return tuple(out)


@hook(struct.unpack_from)
def h_struct_unpack_from(fmt, b, offset=0):
    n = struct.calcsize(fmt)
    if len(b) - offset < n:
        raise struct.error("unpack_from requires a larger buffer")
    return h_unpack(fmt, b[offset : offset + n])


@hook(struct.calcsize)
def h_calcsize(fmt):
    return struct.calcsize(fmt)


# --------------------------------------------------------------------------------------------------------------------
# codecs: opaque encoded objects with the contract loads(dumps(v)) == normalise(v)


class SymBlob(SymText):
    """Bytes produced by a stubbed binary encoder."""

    __slots__ = ()

    @property
    def __class__(self):
        return bytes

    def __eq__(self, o):
        if o is self:
            return True
        if type(o) is SymBlob:
            if o.codec == self.codec:
                return eq(self.value, o.value)
            raise PathIncomplete("encodings of different codecs compared")
        if type(o) in (bytes, SymBytes, SymTextBytes, SymB64Bytes):
            raise PathIncomplete("encoding compared with bytes")
        return NotImplemented if type(o) is SymAny else False

    def sym_len(self):
        if self._z is None:
            k = E().path_vars.setdefault("blob_len", 0)
            E().path_vars["blob_len"] = k + 1
            self._z = z3.Int(f"blob_len.{k}")
            E().add(self._z > 0, self._z, z3.IntVal(10))
        return SymInt(self._z)

    def zexpr(self):
        raise PathIncomplete("encoded bytes inspected")

    def decode(self, *a, **k):
        raise PathIncomplete("encoded bytes decoded as text")

    def encode(self, *a, **k):
        raise AttributeError("'bytes' object has no attribute 'encode'")

    def __hash__(self):
        return id(self)


MALFORMED = object()  # the value of an encoded object that no decoder accepts


def _norm(v, codec, depth=0):
    """What decoding the encoding of v gives; raises TypeError as the encoder would for unencodable values."""
    if type(v) is SymAny and codec in v.plain:
        return v
    v = res(v)
    t = type(v)
    if v is None or t in (bool, int, float, str, SymInt, SymBool, SymStr, SymText, SymCStr, SymB64, SymFloat):
        if codec == "msgpack" and t in (int, SymInt):
            if not bool(land(v >= -(1 << 63), v < (1 << 64))):
                raise OverflowError("Integer value out of range")
        return v
    if t is SymBV:
        return v
    if t in (bytes, bytearray, SymBytes, SymTextBytes, SymB64Bytes, SymBlob):
        if codec == "json":
            raise TypeError(f"Object of type {pytype(v).__name__} is not JSON serializable")
        return v
    if t in (list, tuple):
        return [_norm(x, codec, depth + 1) for x in v]
    if t in (SymDict, SymDefaultDict):
        d = SymDict([[k, _norm(x, codec, depth + 1), p] for k, x, p in v.items_], v.base)
        d.pulled = set(v.pulled)
        for k, _, _ in v.items_:
            if not isinstance(k, str):
                raise PathIncomplete("non-text dictionary key encoded")
        return d
    if isinstance(v, dict):
        if any(not isinstance(k, str) for k in v):
            raise PathIncomplete("non-text dictionary key encoded")
        return SymDict([[k, _norm(x, codec, depth + 1), True] for k, x in v.items()])
    if isinstance(v, (str, int)):  # enum members and the like
        return json.loads(json.dumps(v))
    if t in (SymSet, SymView, set, frozenset):
        if codec == "cbor":
            raise PathIncomplete("set encoded as CBOR")
        raise TypeError(f"Object of type {pytype(v).__name__} is not serializable")
    error = TypeError
    if codec == "cbor":
        error = getattr(cbor2, "CBOREncodeTypeError", TypeError)
    raise error(f"Object of type {t.__name__} is not serializable")


_PROBES = (None, True, False, 0, 1, -5, 1 << 40, (1 << 53) + 1, (1 << 63) - 1, (1 << 64) - 1, 0.0, 1.5, -2.25, 0.1, 1e300, "", "a", "1",
           "\u00e9", "\ud83d\ude00", b"", b"a", b"\xff", [], [1], [[1], "a", [None]], {}, {"a": 1}, {"b": 2, "a": [1]},
           {"k": b"x"}, {"k": {"z": 1, "y": None}}) + tuple(x * (1 << n) for n in range(4, 21) for x in ("a", b"a"))
_REAL = {"json": (json.dumps, json.loads), "cbor": (cbor2.dumps, cbor2.loads), "msgpack": (msgpack.dumps, msgpack.loads)}


def _trip(codec, x, da, dk, la, lk):
    try:
        return _REAL[codec][1](_REAL[codec][0](x, *da, **dict(dk)), *la, **dict(lk))
    except Exception as e:
        return e


@functools.lru_cache(maxsize=None)
def _changed(codec, da, dk, la, lk):
    """The probes that these encoder and decoder options carry differently than no options, with what they give."""
    def key(v):
        return type(v), json.dumps(v, default=repr, sort_keys=True)

    out = {}
    for n, x in enumerate(_PROBES):
        plain = _trip(codec, x, (), (), (), ())
        if isinstance(plain, Exception):
            continue  # not a value this codec carries
        got = _trip(codec, x, da, dk, la, lk)
        if isinstance(got, Exception) or key(got) != key(plain):
            if not any(type(x) is type(y) is not float and len(y) > 8 for y, _ in out.values() if type(y) in (str, bytes)):
                out[n] = (x, got)
    return list(out.values())


def _through(codec, changed, v, hits):
    """v, carried with options that change some values: a value that equals a probe is changed as the probe was."""
    v = res(v)
    t = pytype(v)
    for x, got in changed:
        if type(x) is t:
            if t in (list, dict):
                if len(x) or truth(v):  # the change of an empty list or dictionary stands for that of its kind
                    continue
            elif not bool(eq(v, x)):
                continue
            hits.append(x)
            if isinstance(got, Exception):
                raise got
            return got
    if t is list:
        out = [_through(codec, changed, x, hits) for x in v]
        kind = next((type(g) for x, g in changed if x == [] and type(x) is list and not isinstance(g, Exception)), list)
        return out if kind is list else kind(out)
    if type(v) is SymDict:
        d = SymDict([[k, _through(codec, changed, x, hits), p] for k, x, p in v.items_], v.base)
        d.pulled = set(v.pulled)
        return d
    return v


def _options(codec, d, l, v):
    """The value v as decoded, given the options of encoder and decoder."""
    try:
        changed = _changed(codec, tuple(d[0]), tuple(d[1].items()), tuple(l[0]), tuple(l[1].items()))
    except TypeError:
        raise PathIncomplete(codec + " options")
    if not changed:
        return v
    hits = []
    v = _through(codec, changed, v, hits)
    if not hits:
        raise PathIncomplete(codec + " options that change values")
    return v


def _dumps(codec, cls, real):
    def h(obj, *a, **k):
        if codec == "cbor" and a or "fp" in k:
            raise PathIncomplete("dump to file")
        if not deep_sym(obj, 12):
            return real(obj, *a, **k)
        return cls(codec, _norm(obj, codec), {"a": a, "k": k} if a or k else None)

    return h


def _loads(codec, real, error):
    def h(data, *a, **k):
        data = res(data)
        t = type(data)
        if t is SymTextBytes and codec == "json":
            data = data.text
            t = type(data)
        if t in (SymText, SymBlob):
            if data.value is MALFORMED:
                raise error()
            if data.codec != codec:
                raise PathIncomplete("decoded with another codec")
            v = _norm(data.value, codec)
            if a or k or data.opts:
                opts = data.opts or {}
                v = _options(codec, (opts.get("a", ()), opts.get("k", {})), (a, k), v)
            return v
        if t in SYM_TYPES:
            if not isinstance(data, (str, bytes)):
                raise TypeError("the object must be str, bytes or bytearray")
            raise PathIncomplete(codec + " decode of arbitrary text")
        return real(data, *a, **k)

    return h


class _Encoder:
    def __init__(self, codec, cls, k):
        self.f = _dumps(codec, cls, _REAL[codec][0])
        self.k = k

    def encode(self, obj):
        return self.f(obj, **self.k)

    pack = encode


class _Decoder:
    def __init__(self, codec, k):
        self.f = _loads(codec, _REAL[codec][1], lambda: ValueError("malformed"))
        self.k = k

    def decode(self, data):
        return self.f(data, **self.k)


hook(json.JSONEncoder)(lambda **k: _Encoder("json", SymText, k))
hook(json.JSONDecoder)(lambda **k: _Decoder("json", k))
hook(msgpack.Packer)(lambda **k: _Encoder("msgpack", SymBlob, k))
hook(json.dumps)(_dumps("json", SymText, json.dumps))
hook(json.loads)(_loads("json", json.loads, lambda: json.JSONDecodeError("malformed", "", 0)))
hook(cbor2.dumps)(_dumps("cbor", SymBlob, cbor2.dumps))
hook(cbor2.loads)(_loads("cbor", cbor2.loads, lambda: cbor2.CBORDecodeEOF("malformed")))
hook(msgpack.dumps, msgpack.packb)(_dumps("msgpack", SymBlob, msgpack.dumps))
hook(msgpack.loads, msgpack.unpackb)(_loads("msgpack", msgpack.loads, lambda: ValueError("malformed")))


# --------------------------------------------------------------------------------------------------------------------
# text encodings


@hook(binascii.hexlify, binascii.b2a_hex)
def h_hexlify(b, *a):
    b = res(b)
    if type(b) is SymBytes:
        return hexlify_terms(b.b).encode()
    if type(b) in SYM_TYPES:
        raise PathIncomplete("hexlify")
    return binascii.hexlify(b, *a)


class HexBytes:
    pass


def unhexlify(s, fromhex=False):
    s = res(s)
    t = type(s)
    if t not in SYM_TYPES:
        return binascii.unhexlify(s) if not fromhex else bytes.fromhex(s)
    err = ValueError if fromhex else binascii.Error
    if t is SymCStr:
        cs = s.c
        if not fromhex and any(type(c) is int and c > 127 for c in cs):
            raise ValueError("string argument should contain only ASCII characters")
        # symbolic character terms are 8 bits wide; codes above 127 stand for non-ASCII text
        if not fromhex:
            for c in cs:
                if type(c) not in (int, sym.HexChar) and bool(mkbool(z3.UGT(c, 127))):
                    raise ValueError("string argument should contain only ASCII characters")
    elif t is SymBytes:
        cs = [sym.hex_char(x) for x in s.b]
    elif t in (SymB64,):
        return unhexlify(s.chars(), fromhex)
    elif t in (SymStr, SymText, SymTextBytes):
        raise PathIncomplete("hex decode of unbounded text")
    else:
        raise TypeError(f"argument should be bytes, buffer or ASCII string, not '{pytype(s).__name__}'")
    if len(cs) % 2:
        raise err("Odd-length string")
    out = []
    for i in range(0, len(cs), 2):
        hi, lo = hex_nibble(cs[i]), None
        if hi is not None:
            lo = hex_nibble(cs[i + 1])
        if hi is None or lo is None:
            raise err("Non-hexadecimal digit found")
        v = z3.simplify(z3.Concat(hi, lo))
        out.append(v.as_long() if z3.is_bv_value(v) else v)
    return SymBytes(out)


@hook(binascii.unhexlify, binascii.a2b_hex)
def h_unhexlify(s):
    return unhexlify(s)


@hook(base64.b64encode, base64.standard_b64encode)
def h_b64encode(b, *a):
    b = res(b)
    if type(b) is SymBytes:
        return SymB64Bytes(SymB64(b))
    if type(b) in SYM_TYPES:
        if isinstance(b, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        raise PathIncomplete("b64encode")
    return base64.b64encode(b, *a)


@hook(binascii.b2a_base64)
def h_b2a_base64(b, *, newline=True):
    b = res(b)
    if type(b) is SymBytes:
        if newline:
            raise PathIncomplete("b2a_base64 with a newline")
        return SymB64Bytes(SymB64(b))
    if type(b) in SYM_TYPES:
        raise PathIncomplete("b2a_base64")
    return binascii.b2a_base64(b, newline=newline)


_B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


PAD, SKIP = object(), object()


def _b64_class(c):
    """(PAD|SKIP|6-bit term) of one character; forks."""
    c = sym.char_code(c)
    if type(c) is int:
        if c == 61:
            return PAD
        ch = chr(c)
        return z3.BitVecVal(_B64.index(ch), 6) if ch in _B64 and c < 128 else SKIP
    if bool(mkbool(c == 61)):
        return PAD
    up = z3.And(z3.UGE(c, 65), z3.ULE(c, 90))
    lo = z3.And(z3.UGE(c, 97), z3.ULE(c, 122))
    dg = z3.And(z3.UGE(c, 48), z3.ULE(c, 57))
    if bool(mkbool(z3.Or(up, lo, dg, c == 43, c == 47))):
        v = z3.If(up, c - 65, z3.If(lo, c - 71, z3.If(dg, c + 4, z3.If(c == 43, z3.BitVecVal(62, 8), z3.BitVecVal(63, 8)))))
        return z3.Extract(5, 0, v)
    return SKIP


def _a2b_base64(cs, strict):
    """binascii.a2b_base64 on characters (non-strict mode discards what is not in the alphabet)."""
    quad, pads, left, out = 0, 0, None, []
    for i, c in enumerate(cs):
        k = _b64_class(c)
        if k is PAD:
            if quad >= 2:
                pads += 1
                if quad + pads >= 4:
                    return out
            elif strict:
                raise binascii.Error("Excess data")
            continue
        if k is SKIP:
            if strict:
                raise binascii.Error("Only base64 data is allowed")
            continue
        pads = 0
        if quad == 0:
            left = k
        elif quad == 1:
            out.append(z3.Concat(left, z3.Extract(5, 4, k)))
            left = z3.Extract(3, 0, k)
        elif quad == 2:
            out.append(z3.Concat(left, z3.Extract(5, 2, k)))
            left = z3.Extract(1, 0, k)
        else:
            out.append(z3.Concat(left, k))
        quad = (quad + 1) % 4
    if quad:
        raise binascii.Error("Incorrect padding")
    return out


@hook(base64.b64decode, base64.standard_b64decode, binascii.a2b_base64)
def h_b64decode(s, altchars=None, validate=False, strict_mode=False):
    s = res(s)
    t = type(s)
    if t not in SYM_TYPES:
        return base64.b64decode(s, altchars, validate)
    if altchars is not None:
        raise PathIncomplete("b64decode altchars")
    strict = validate or strict_mode
    if t is SymB64:
        return s.raw
    if t is SymB64Bytes:
        return s.text.raw
    if t is SymCStr:
        for c in s.c:
            if type(c) is int and c > 127 or type(c) not in (int, sym.HexChar) and bool(mkbool(z3.UGT(c, 127))):
                raise ValueError("string argument should contain only ASCII characters")
        cs = s.c
    elif t is SymBytes:
        cs = s.b
    elif t in (SymStr, SymText, SymTextBytes):
        raise PathIncomplete("base64 decode of unbounded text")
    else:
        raise TypeError(f"argument should be a bytes-like object or ASCII string, not '{pytype(s).__name__}'")
    out = [z3.simplify(x) for x in _a2b_base64(cs, strict)]
    return SymBytes([x.as_long() if z3.is_bv_value(x) else x for x in out])


# --------------------------------------------------------------------------------------------------------------------
# randomness and time


def fresh_name(kind):
    pv = E().path_vars
    k = pv.setdefault("n." + kind, 0)
    pv["n." + kind] = k + 1
    return f"{kind}.{k}"


def record_random(kind, value, source, size):
    E().path_vars.setdefault("random", []).append((kind, value))
    E().path_vars.setdefault("draws", []).append((source, value, size))
    return value


def rand_bytes(n, source="prng"):
    n = _small(n) if type(n) in SYM_TYPES else n
    name = fresh_name("rand")
    return record_random("bytes", SymBytes([z3.BitVec(f"{name}.{i}", 8) for i in range(n)]), source, 1 << (8 * n))


def rand_int(lo, hi, source="prng"):
    """lo <= result <= hi"""
    if not deep_sym((lo, hi)) and lo > hi:
        raise ValueError(f"empty range for randrange() ({lo}, {hi + 1}, {hi + 1 - lo})")
    name = fresh_name("randint")
    v = z3.Int(name)
    l, h = SymInt._lift(lo), SymInt._lift(hi)
    E().add(z3.And(v >= l, v <= h), v, l if z3.is_int_value(l) else z3.IntVal(0))
    return record_random("int", SymInt(v), source, hi - lo + 1)


def h_randfloat(*a, **k):
    raise PathIncomplete("random float")


def random_hooks(source):
    def randrange(start, stop=None, step=1):
        if step != 1:
            raise PathIncomplete("randrange step")
        if stop is None:
            start, stop = 0, start
        return rand_int(start, stop - 1, source)

    def choice(seq):
        return seq[_small(rand_int(0, len(seq) - 1, source))]

    return {
        "randbytes": lambda n: rand_bytes(n, source), "randint": lambda a, b: rand_int(a, b, source), "randrange": randrange,
        "getrandbits": lambda k: rand_int(0, (1 << k) - 1, source), "random": h_randfloat, "uniform": h_randfloat,
        "choice": choice, "shuffle": h_randfloat, "sample": h_randfloat, "choices": h_randfloat, "seed": lambda *a, **k: None,
    }


RANDOM = random_hooks("prng")
SYSTEM = random_hooks("system")
for _n, _h in RANDOM.items():
    hook(getattr(random, _n))(_h)


def _system_bytes(n=32):
    return rand_bytes(32 if n is None else n, "system")


hook(os.urandom, secrets.token_bytes, nacl.utils.random)(_system_bytes)
hook(secrets.token_hex)(lambda n=32: _system_bytes(n).hex())
hook(secrets.token_urlsafe)(h_randfloat)
hook(secrets.randbelow)(lambda n: rand_int(0, n - 1, "system"))
hook(secrets.randbits)(SYSTEM["getrandbits"])
hook(secrets.choice)(SYSTEM["choice"])
hook(time.time)(lambda: 1704164645.678901)
hook(time.monotonic, time.perf_counter)(lambda: 1000.0)
hook(time.time_ns, time.monotonic_ns)(lambda: 1704164645678901000)
hook(uuid.uuid4)(lambda: h_randfloat())


# --------------------------------------------------------------------------------------------------------------------
# cryptography: idealised functions.  Each application is a fresh value; two applications are equal exactly when their
# inputs are (determinism and no collisions).


def ideal(kind, inputs, nbytes, real=None):
    """Application of the ideal function `kind`."""
    apps = E().path_vars.setdefault("apps." + kind, [])
    conds = []
    for inp, out in apps:
        same = land(*[eq(x, y) for x, y in zip(inp, inputs)]) if len(inp) == len(inputs) else False
        if same is True:
            return out
        conds.append((same, out))
    name = fresh_name(kind)
    out = SymBytes([z3.BitVec(f"{name}.{i}", 8) for i in range(nbytes)])
    for same, o in conds:
        if len(o) != nbytes:
            continue
        e = sym.eq(o, out)
        if e is True or e is False:
            continue
        E().assume(e.e == sym.zbool(same))
    apps.append((list(inputs), out))
    return out


def _key_bytes(x, what):
    x = res(x)
    if type(x) in (SymBytes, SymTextBytes, SymB64Bytes, bytes, bytearray):
        return bytes(x) if type(x) is bytearray else x
    if type(x) is SymBlob:
        return x
    if isinstance(x, str):
        raise TypeError("Strings must be encoded before hashing")
    raise TypeError(f"{what}: expected bytes or bytearray, but got '{pytype(x).__name__}'")


def _algo(d):
    if d is None or d == "":
        raise TypeError("Missing required argument 'digestmod'.")
    if isinstance(d, str):
        return d.lower()
    try:
        return d().name
    except Exception:
        raise PathIncomplete("digestmod")


_SIZE = {"sha256": 32, "sha1": 20, "sha512": 64, "md5": 16, "sha384": 48, "sha224": 28}


class IdealHmac:
    """Stands for hmac.HMAC over symbolic data."""

    def __init__(self, key, msg, algo):
        self.key = _key_bytes(key, "key")
        self.parts = []
        self.algo = algo
        self.digest_size = _SIZE[algo]
        self.name = "hmac-" + algo
        if msg is not None:
            self.update(msg)

    def update(self, m):
        self.parts.append(_key_bytes(m, "msg"))

    def digest(self):
        if not self.parts:
            m = b""
        elif len(self.parts) == 1:
            m = self.parts[0]
        else:
            m = self.parts[0]
            for p in self.parts[1:]:
                m = m + p
        if not deep_sym((self.key, m)):
            return hmac.new(self.key, m, self.algo).digest()
        return ideal("hmac_" + self.algo, [self.key, m], self.digest_size)

    def hexdigest(self):
        d = self.digest()
        return d.hex()

    def copy(self):
        h = IdealHmac(self.key, None, self.algo)
        h.parts = list(self.parts)
        return h


@hook(hmac.new, hmac.HMAC)
def h_hmac_new(key, msg=None, digestmod=""):
    if not deep_sym((key, msg)):
        # a later update may still be symbolic
        return IdealHmac(key, msg, _algo(digestmod)) if _algo(digestmod) in _SIZE else hmac.new(key, msg, digestmod)
    return IdealHmac(key, msg, _algo(digestmod))


@hook(hmac.digest)
def h_hmac_digest(key, msg, digest):
    return IdealHmac(key, msg, _algo(digest)).digest()


@hook(hmac.compare_digest, secrets.compare_digest)
def h_compare_digest(a, b):
    a, b = res(a), res(b)
    if not deep_sym((a, b)):
        return hmac.compare_digest(a, b)
    sa, sb = isinstance(a, str), isinstance(b, str)
    if sa != sb:
        raise TypeError("unsupported operand types(s) or combination of types")
    if not sa and not (isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray))):
        raise TypeError("unsupported operand types(s) or combination of types")
    if sa:
        for x in (a, b):
            if type(x) is str and not x.isascii():
                raise TypeError("comparing strings with non-ASCII characters is not supported")
            if type(x) is SymCStr and bool(lor(*[
                    (c > 127) if type(c) is int else mkbool(z3.UGT(c, 127)) for c in x.c if type(c) is not sym.HexChar])):
                raise TypeError("comparing strings with non-ASCII characters is not supported")
            if type(x) in (SymStr, SymText):
                raise PathIncomplete("compare_digest of unbounded text")
        if type(a) is SymCStr and type(b) is SymB64:
            b = b.chars()
        if type(b) is SymCStr and type(a) is SymB64:
            a = a.chars()
    return eq(a, b)


class IdealHash:
    def __init__(self, algo, data=b""):
        self.name = algo
        self.digest_size = _SIZE[algo]
        self.parts = []
        if not (type(data) is bytes and not data):
            self.update(data)

    def update(self, d):
        self.parts.append(_key_bytes(d, "data"))

    def digest(self):
        m = self.parts[0] if self.parts else b""
        for p in self.parts[1:]:
            m = m + p
        if not deep_sym(m):
            return hashlib.new(self.name, m).digest()
        return ideal(self.name, [m], self.digest_size)

    def hexdigest(self):
        return self.digest().hex()


for _n in _SIZE:
    hook(getattr(hashlib, _n))(functools.partial(lambda _algo_, data=b"", **k: IdealHash(_algo_, data), _n))


@hook(hashlib.pbkdf2_hmac)
def h_pbkdf2(hash_name, password, salt, iterations, dklen=None):
    iterations, dklen = res(iterations), res(dklen)
    if not deep_sym((password, salt, iterations, dklen)):
        return hashlib.pbkdf2_hmac(hash_name, password, salt, iterations, dklen)
    password, salt = _key_bytes(password, "password"), _key_bytes(salt, "salt")
    if not isinstance(iterations, int):
        raise TypeError(f"'{pytype(iterations).__name__}' object cannot be interpreted as an integer")
    if dklen is not None and not isinstance(dklen, int):
        raise TypeError(f"'{pytype(dklen).__name__}' object cannot be interpreted as an integer")
    if bool(iterations < 1):
        raise ValueError("iteration value must be greater than 0.")
    if bool(iterations > 2**31 - 1):
        raise OverflowError("iteration value is too great.")
    if dklen is None:
        dklen = _SIZE[hash_name]
    if bool(dklen < 1):
        raise ValueError("key length must be greater than 0.")
    n = _small(dklen)
    return ideal(f"pbkdf2_{hash_name}_{n}", [password, salt, iterations], n)


# Ed25519 as an ideal signature scheme: Sig(public key, message) is unique, verification compares with it.


def _raw_bytes(x, what, exc):
    x = res(x)
    if type(x) in (bytes, SymBytes):
        return x
    if type(x) in (SymTextBytes, SymB64Bytes, SymBlob):
        raise PathIncomplete(what)
    raise exc


class IdealVerifyKey:
    def __init__(self, key, encoder=nacl.encoding.RawEncoder):
        key = _dec(encoder, key)
        if not isinstance(key, (bytes, bytearray)):
            raise nacl.exceptions.TypeError("VerifyKey must be created from 32 bytes")
        if len(key) != 32:
            raise nacl.exceptions.ValueError("The key must be exactly 32 bytes long")
        self._key = key

    def encode(self, encoder=nacl.encoding.RawEncoder):
        return _enc(encoder, self._key)

    def __bytes__(self):
        return bytes(self._key)

    def __eq__(self, o):
        return type(o) is IdealVerifyKey and eq(self._key, o._key)

    def verify(self, smessage, signature=None, encoder=nacl.encoding.RawEncoder):
        smessage = res(smessage)
        if signature is not None:
            if not isinstance(signature, (bytes, bytearray)):
                raise nacl.exceptions.TypeError("Verification signature must be created from 64 bytes")
            if len(signature) != 64:
                raise nacl.exceptions.ValueError("The signature must be exactly 64 bytes long")
            sig, msg = signature, _dec(encoder, smessage)
        else:
            smessage = _dec(encoder, smessage)
            if not isinstance(smessage, (bytes, bytearray)):
                raise nacl.exceptions.TypeError("expected bytes")
            if len(smessage) < 64:
                # libsodium reports a bad signature for short inputs
                raise nacl.exceptions.BadSignatureError("Signature was forged or corrupt")
            sig, msg = smessage[:64], smessage[64:]
        if not deep_sym((self._key, sig, msg)):
            return nacl.signing.VerifyKey(bytes(self._key)).verify(bytes(msg), bytes(sig))
        if not bool(eq(sig, ideal_sig(self._key, msg))):
            raise nacl.exceptions.BadSignatureError("Signature was forged or corrupt")
        return msg


def ideal_sig(pk, msg):
    return ideal("ed25519", [pk, msg], 64)


class IdealSigningKey:
    def __init__(self, seed, encoder=nacl.encoding.RawEncoder):
        seed = _dec(encoder, seed)
        if not isinstance(seed, (bytes, bytearray)):
            raise nacl.exceptions.TypeError("SigningKey must be created from a 32 byte seed")
        if len(seed) != 32:
            raise nacl.exceptions.ValueError("The seed must be exactly 32 bytes long")
        self._seed = seed
        if deep_sym(seed):
            pk = ideal("ed25519_pub", [seed], 32)
        else:
            pk = bytes(nacl.signing.SigningKey(bytes(seed)).verify_key)
        self.verify_key = IdealVerifyKey(pk)

    def encode(self, encoder=nacl.encoding.RawEncoder):
        return _enc(encoder, self._seed)

    def __bytes__(self):
        return bytes(self._seed)

    def sign(self, message, encoder=nacl.encoding.RawEncoder):
        message = res(message)
        if not isinstance(message, (bytes, bytearray)):
            raise TypeError("a bytes-like object is required")
        if not deep_sym((self._seed, message)):
            s = nacl.signing.SigningKey(bytes(self._seed)).sign(bytes(message))
            sig = s.signature
        else:
            sig = ideal_sig(self.verify_key._key, message)
        return IdealSigned(_enc(encoder, sig), _enc(encoder, message), _enc(encoder, sig + message))


class IdealSigned:
    def __init__(self, sig, msg, both):
        self.signature = sig
        self.message = msg
        self._both = both

    def __getattr__(self, n):
        return getattr(self._both, n)

    def __getitem__(self, i):
        return self._both[i]

    def __len__(self):
        return len(self._both)

    @property
    def __class__(self):
        return nacl.signing.SignedMessage


def _enc(encoder, b):
    if not deep_sym(b):
        return encoder.encode(bytes(b))
    n = encoder.__name__
    if n == "RawEncoder":
        return b
    if n == "HexEncoder":
        return h_hexlify(b)
    if n == "Base64Encoder":
        return h_b64encode(b)
    raise PathIncomplete("nacl encoder")


def _dec(encoder, b):
    n = encoder.__name__
    if n == "RawEncoder":
        return res(b)
    if n == "HexEncoder":
        return h_unhexlify(b)
    if n == "Base64Encoder":
        return h_b64decode(b)
    raise PathIncomplete("nacl encoder")


def nacl_signing_key(seed, encoder=nacl.encoding.RawEncoder):
    return IdealSigningKey(seed, encoder)


hook(nacl.signing.SigningKey)(nacl_signing_key)
hook(nacl.signing.VerifyKey)(IdealVerifyKey)
hook(nacl.encoding.HexEncoder.encode)(lambda d: _enc(nacl.encoding.HexEncoder, d))
hook(nacl.encoding.HexEncoder.decode)(lambda d: _dec(nacl.encoding.HexEncoder, d))
hook(nacl.encoding.Base64Encoder.encode)(lambda d: _enc(nacl.encoding.Base64Encoder, d))
hook(nacl.encoding.Base64Encoder.decode)(lambda d: _dec(nacl.encoding.Base64Encoder, d))


def _nacl_method(s, name, f, a, k):
    # keys made by the harness are real objects; symbolic data goes to the ideal scheme
    if isinstance(s, nacl.signing.SigningKey):
        return getattr(IdealSigningKey(bytes(s)), name)(*a, **k)
    if isinstance(s, nacl.signing.VerifyKey):
        return getattr(IdealVerifyKey(bytes(s)), name)(*a, **k)
    return f(*a, **k)


sym.SYM_TYPES = SYM_TYPES = frozenset(SYM_TYPES | {SymBlob})
