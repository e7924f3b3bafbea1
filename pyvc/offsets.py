"""Byte positions of a text file that ends in parts of one size.

A contract may give a file whose last chunk is a repeated part of equally many bytes (``g.path(..., even=True)``): then
a position at the start of part k is the integer S0 + B*k, where S0 is the size of what comes before and B > 0 the size
of a part, both unknown.  Other positions of the file stay opaque.
"""
import types

import z3

from . import machine as mc
from .values import *

UNITS = {}          # name of a size constant -> term


def layout(st, fid):
    o = st.heap[fid]
    lay = getattr(o, "layout", None)
    if lay is None:
        raise Unsupported("arithmetic on a position")
    return o, lay


def make(n):
    s0, b = z3.Int(f"size0!{n}"), z3.Int(f"size!{n}")
    UNITS[str(b)] = b
    return s0, b


def offset(st, t):
    """The integer position of a Tell."""
    o, (idx, s0, b) = layout(st, t.fid)
    seg, cur = o.chunks[idx], t.cur
    if len(cur) == 1:
        if cur[0][0] < idx:
            raise Unsupported("position inside the heading")
        k = seg.lo if cur[0][0] == idx else seg.hi
    else:
        (i, k), rest = cur[0], cur[1:]
        if i != idx:
            raise Unsupported("position inside the heading")
        if rest[0][0] >= len(seg.body):
            k = tadd(k, 1)
        elif any(r[0] != 0 or not (r[1] is None or same_term(r[1], 0)) for r in rest):
            raise Unsupported("position inside a part")
    return simp_int(s0 + b * zint(k))


def sizes(t):
    """t as {monomial of sizes: coefficient}: a polynomial, linear in each size."""
    t = z3.simplify(t, som=True)
    out = {}
    for m in (t.children() if z3.is_add(t) else [t]):
        fs = m.children() if z3.is_mul(m) else [m]
        unit = [f for f in fs if str(f).startswith(("size!", "size0!"))]
        rest = [f for f in fs if not str(f).startswith(("size!", "size0!"))]
        key = tuple(sorted(map(str, unit)))
        out[key] = z3.simplify(out.get(key, z3.IntVal(0)) + (z3.Product(*rest) if len(rest) > 1 else rest[0] if rest else z3.IntVal(1)))
    return {k: v for k, v in out.items() if not (z3.is_int_value(v) and v.as_long() == 0)}


def quotient(x, y):
    """x / y of an exact division by one size, else None."""
    d = sizes(y)
    if len(d) != 1:
        return None
    (u, c), = d.items()
    if len(u) != 1 or u[0] not in UNITS or not (z3.is_int_value(c) and c.as_long() == 1):
        return None
    n = sizes(x)
    if set(n) - {u}:
        return None
    return n.get(u, z3.IntVal(0))


def seek(M, st, ref, pos):
    o, (idx, s0, b) = layout(st, ref.id)
    d = sizes(zint(pos))
    one = d.pop((str(s0),), z3.IntVal(0))
    k = d.pop((str(b),), z3.IntVal(0))
    if d or not (z3.is_int_value(one) and one.as_long() == 1):
        raise Unsupported("seek inside a part")
    if not M.prove(st, k >= 0):
        raise Unsupported("seek before the parts")
    k = simp_int(k)
    st.mut(ref).cur = ((idx, k.t if isinstance(k, SInt) else k), (0, None))
    return pos


def stat(M, st, o):
    idx, s0, b = o
    return s0, b
