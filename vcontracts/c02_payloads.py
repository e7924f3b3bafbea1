"""C02: binary payloads."""
import struct

from castep_outputs.utilities.type_conv import parse_bytes
from castep_outputs.utilities.utility import get_only
from pyvc.contract import Case, contract

from .common import *

TYPES = {"int": int, "float": float, "bool": bool, "complex": complex}


def payload(g, typ, n):
    """(payload, element j) of n elements of a type"""
    if typ in ("int", "bool"):
        val = lambda j: g.i4("x", j) if typ == "int" else g.nonzero(g.i4("x", j))
        return g.ints(*g.rep(n, lambda j: [g.i4("x", j)])), val
    if typ == "float":
        return g.doubles(*g.rep(n, lambda j: [g.f8("x", j)])), lambda j: g.f8("x", j)
    return g.doubles(*g.rep(n, lambda j: [g.f8("re", j), g.f8("im", j)])), lambda j: g.cplx(g.f8("re", j), g.f8("im", j))


@contract("C02", variants=[dict(typ=t) for t in TYPES])
def sequences(g, typ):
    """All elements, in order, as a tuple: any element count."""
    n = g.count("n")
    b, val = payload(g, typ, n)
    return Case(parse_bytes, [b, (TYPES[typ], ...)], expect=g.T(*g.rep(n, lambda j: [val(j)])))


@contract("C02", variants=[dict(typ=t, n=n) for t in TYPES for n in (1, 2, 3, 7)])
def few(g, typ, n):
    """The same for small fixed counts, element by element."""
    b, val = payload(g, typ, n)
    return Case(parse_bytes, [b, (TYPES[typ], ...)], expect=g.T(*[val(j) for j in range(n)]))


@contract("C02", variants=[dict(typ=t) for t in TYPES])
def single(g, typ):
    """A single value is the bare element."""
    b, val = payload(g, typ, 1)
    return Case(parse_bytes, [b, TYPES[typ]], expect=val(0))


@contract("C02", variants=[dict(typ=t) for t in TYPES])
def too_many(g, typ):
    """A single value out of several elements is an error, never a chosen element."""
    n = g.count("n", lo=2)
    b, val = payload(g, typ, n)
    return Case(parse_bytes, [b, TYPES[typ]], raises=(ValueError,))


@contract("C02", variants=[dict(typ=t) for t in TYPES])
def none_there(g, typ):
    b, val = payload(g, typ, 0)

    def run(b):
        try:
            return "value", parse_bytes(b, TYPES[typ])
        except ValueError:
            return "error", parse_bytes(b, (TYPES[typ], ...))
    return Case(run, [b], expect=g.T("error", g.T()))


@contract("C02", variants=[dict(many=m) for m in (False, True)])
def texts(g, many):
    """Text payloads are one text, blanks included."""
    t = g.cat(g.fld(WS0, "l"), g.fld(LABEL, "x"), g.fld(WS0, "t"))
    return Case(parse_bytes, [g.ascii(t), (str, ...) if many else str], expect=g.T(t) if many else t)


@contract("C02", variants=[dict(typ=t, r=r) for t in TYPES for r in (1, 2, 3, 4, 5, 7) if not (t in ("int", "bool") and r > 3)])
def ragged(g, typ, r):
    """A payload that is not made of whole elements is an error."""
    n = g.count("n")
    b, val = payload(g, typ, n)
    tail = bytes(range(1, r + 1))
    if typ == "complex":
        return Case(parse_bytes, [g.bcat(b, tail), (complex, ...)], raises=(struct.error, ValueError))
    return Case(parse_bytes, [g.bcat(b, tail), (TYPES[typ], ...)], raises=(struct.error, ValueError))


WRONG = ["int", 3, None, (int, int), (int,), (..., int), (int, ..., ...), [int], ("int", ...), (3, ...), ..., {int: ...}]


@contract("C02", variants=[dict(k=k) for k in range(len(WRONG))])
def wrong_requests(g, k):
    """A request that is neither a type nor (type, ...) is an error."""
    n = g.count("n", lo=1)
    b, val = payload(g, "int", n)
    typ = WRONG[k]
    return Case(lambda b: parse_bytes(b, typ), [b], raises=(TypeError,))


@contract("C02", variants=[dict(typ=t, many=m) for t in (dict, list, bytes, object, type(None)) for m in (False, True)])
def unknown_types(g, typ, many):
    """A type no decoder exists for is an error."""
    n = g.count("n", lo=1)
    b, val = payload(g, "int", n)
    return Case(lambda b: parse_bytes(b, (typ, ...) if many else typ), [b], raises=(TypeError, KeyError))


@contract("C02", samples=6)
def byte_order(g):
    """Fixed payloads: most significant byte first."""
    def run():
        return (parse_bytes(b"\x00\x00\x01\x02", int), parse_bytes(b"\xff\xff\xff\xfe", int),
                parse_bytes(b"\x80\x00\x00\x00", int), parse_bytes(b"\x00\x00\x00\x00\x01\x00\x00\x00", (bool, ...)),
                parse_bytes(b"@\x09\x21\xfbTD-\x18", float), parse_bytes(b"\xbf\xf0" + b"\0" * 6 + b"?\xe0" + b"\0" * 6, complex),
                parse_bytes(b"Si  ", str), parse_bytes(b"", str), parse_bytes(b"", (float, ...)))
    return Case(run, [], expect=g.T(258, -2, -2147483648, g.T(False, True), 3.141592653589793, complex(-1, .5), "Si  ", "", g.T()))


@contract("C02")
def only_element(g):
    """get_only of any longer sequence is an error."""
    n = g.count("n", lo=2)
    xs = g.pylist(g.rep(n, lambda i: [g.fld(LABEL, "x", i)]))
    return Case(get_only, [xs], raises=(ValueError,))


@contract("C02", variants=[dict(cls=c) for c in ("list", "tuple")])
def only_one(g, cls):
    xs = g.pylist(g.fld(LABEL, "x"))

    def run(xs):
        try:
            bad = get_only(xs[:0])
        except ValueError:
            bad = "error"
        return get_only(xs if cls == "list" else tuple(xs)), bad
    return Case(run, [xs], expect=g.T(g.fld(LABEL, "x"), "error"))
