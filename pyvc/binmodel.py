"""Binary files and byte strings.

A binary file is a file whose elements are byte strings with a known layout: ``bytes`` constants and ``SBytes``
of kind
  i    big-endian 32-bit integers (chunks: integers)
  d    big-endian 64-bit floats (chunks: floats)
  s    ASCII text (chunks: one text)
  raw  unknown bytes (t)
  mix  several of these in a row (chunks)
Reads and relative seeks are decided when they cover whole elements; anything else is not decided.
"""
import io
import itertools
import operator
import os
import struct

import z3

from . import machine as mc
from . import models, strs
from .machine import cur_norm, cur_read
from .models import FUNCS, METHODS, VAL_ATTR, as_int, fn, klass, meth
from .values import *

BytS = z3.DeclareSort("Bytes")
SLEN = z3.Function("SLEN", StrS, IntS)       # characters of a field
WIDTH = {"i": 4, "d": 8}


def nbytes(v):
    if isinstance(v, bytes):
        return len(v)
    if v.nbytes is not None:
        return v.nbytes
    if v.kind in WIDTH:
        n = tmul(WIDTH[v.kind], chunks_len(v.chunks))
    elif v.kind == "s":
        n = 0
        for p in pieces_of(v.chunks[0]):
            n = tadd(n, len(p) if isinstance(p, str) else SLEN(p.t))
    elif v.kind == "mix":
        n = 0
        for c in v.chunks:
            n = tadd(n, nbytes(c))
    else:
        raise Unsupported("size of bytes")
    v.nbytes = n
    return n


def bint(n):
    """The 4 bytes of a length or integer."""
    n = n.t if isinstance(n, SInt) else n
    if isinstance(n, int):
        return n.to_bytes(4, "big", signed=n < 0)
    return SBytes(None, "i", [SInt(n)], 4)


def typed(kind, chunks):
    chunks = tuple(chunks)
    if kind == "i" and all(type(c) is int for c in chunks):
        return struct.pack(f">{len(chunks)}i", *chunks)
    if kind == "d" and all(type(c) is float for c in chunks):
        return struct.pack(f">{len(chunks)}d", *chunks)
    if kind == "s" and all(type(c) is str for c in chunks):
        return "".join(chunks).encode("ascii")
    return SBytes(None, kind, chunks)


def concat(parts):
    out = []
    for p in parts:
        if isinstance(p, SBytes) and p.kind == "mix":
            out += p.chunks
        elif p != b"":
            out.append(p)
    # neighbouring parts of one kind are one part
    res = []
    for p in out:
        if res and isinstance(p, SBytes) and isinstance(res[-1], SBytes) and p.kind == res[-1].kind and p.kind in WIDTH:
            res[-1] = typed(p.kind, res[-1].chunks + p.chunks)
        elif res and isinstance(p, bytes) and isinstance(res[-1], bytes):
            res[-1] = res[-1] + p
        else:
            res.append(p)
    if not res:
        return b""
    if len(res) == 1:
        return res[0]
    return SBytes(None, "mix", res)


# ------------------------------------------------------------------------------------------------ reading
def read_units(M, st, o, n):
    """(bytes, cursor) of a read of n bytes (n None: all that is left)."""
    cur = o.cur
    got, size = [], 0
    want = n.t if isinstance(n, SInt) else n
    for _ in range(4):
        if want is not None and (mc.same_term(size, want) or _proved(M, st, size, want)):
            return concat(got), cur
        leaf, cur = cur_norm(st, o.chunks, cur)
        if leaf is None:
            if not got and isinstance(want, int) and want > 0:
                return b"", cur
            break
        v, seg, k, cur = cur_read(st, o.chunks, leaf)
        got.append(v)
        size = tadd(size, nbytes(v))
    if want is not None and (mc.same_term(size, want) or _proved(M, st, size, want)):
        return concat(got), cur
    raise Unsupported("read of part of a record")


def _proved(M, st, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    c = z3.simplify(zint(a) == zint(b))
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return M.prove(st, c)


def cur_back(M, st, chunks, cur):
    """Cursor of the element before the cursor, None at the start; may ForkOn."""
    while True:
        i = cur[-1][0]
        if i > 0:
            c = mc.cur_chunks(chunks, cur)[i - 1]
            if not isinstance(c, Seg):
                return cur[:-1] + ((i - 1, None),)
            pairs = [(s.var, zint(k)) for s, k in mc.cur_subst(chunks, cur)]
            lo, hi = subst_bound(c.lo, pairs), subst_bound(c.hi, pairs)
            if M.decide(st, zint(lo) < zint(hi)):
                cur = cur[:-1] + ((i - 1, tsub(hi, 1)), (len(c.body), None))
            else:
                cur = cur[:-1] + ((i - 1, None),)
            continue
        if len(cur) == 1:
            return None
        pi, k = cur[-2]
        seg = mc.cur_seg(chunks, cur, len(cur) - 2)
        if M.decide(st, zint(seg.lo) < zint(k)):
            cur = cur[:-2] + ((pi, tsub(k, 1)), (len(seg.body), None))
        else:
            cur = cur[:-2] + ((pi, None),)


def seek_by(M, st, o, n):
    """Cursor n bytes away."""
    n = n.t if isinstance(n, SInt) else n
    cur, size = o.cur, 0
    back = isinstance(n, int) and n < 0 or not isinstance(n, int) and M.prove(st, n < 0)
    for _ in range(5):
        if mc.same_term(size, n) or _proved(M, st, size, n):
            return cur
        if back:
            cur = cur_back(M, st, o.chunks, cur)
            if cur is None:
                raise PyRaise(OSError, "Invalid argument")
            v = cur_read(st, o.chunks, cur)[0]
            size = tsub(size, nbytes(v))
        else:
            leaf, cur = cur_norm(st, o.chunks, cur)
            if leaf is None:
                break
            v, seg, k, cur = cur_read(st, o.chunks, leaf)
            size = tadd(size, nbytes(v))
    raise Unsupported("seek inside a record")


def is_bin(st, r):
    o = st.heap[r.id]
    return isinstance(o, HFile) and o.pycls in (io.BytesIO, io.BufferedReader)


_read, _seek, _tell = (METHODS[(io.BytesIO, n)] for n in ("read", "seek", "tell"))


@meth((io.BytesIO, io.BufferedReader), "read")
def b_read(M, st, a, kw):
    o = st.get(a[0])
    if not is_bin(st, a[0]):
        return _read(M, st, a, kw)
    if o.closed:
        raise PyRaise(ValueError, "I/O operation on closed file.")
    n = a[1] if len(a) > 1 else None
    if isinstance(n, int) and n < 0:
        n = None
    if isinstance(n, SInt) and not M.decide(st, n.t >= 0):
        raise Unsupported("negative read")
    data, cur = read_units(M, st, o, n)
    st.mut(a[0]).cur = cur
    return data


@meth((io.BytesIO, io.BufferedReader), "seek")
def b_seek(M, st, a, kw):
    whence = a[2] if len(a) > 2 else 0
    o = st.get(a[0])
    if whence == os.SEEK_CUR and is_bin(st, a[0]):
        cur = seek_by(M, st, o, a[1])
        st.mut(a[0]).cur = cur
        return opaque_pos()
    if whence == os.SEEK_SET:
        return _seek(M, st, a[:2], kw)
    raise Unsupported("seek")


def opaque_pos():
    return SInt(fresh_int("pos"))


@meth((io.BytesIO, io.BufferedReader), "__next__", "readline", "readlines", "__iter__")
def b_lines(M, st, a, kw):
    raise Unsupported("lines of a binary file")


# ------------------------------------------------------------------------------------------------ bytes
@fn(int.from_bytes)
def _from_bytes(M, st, a, kw):
    kw = dict(kw)
    order = a[1] if len(a) > 1 else kw.pop("byteorder", "big")
    signed = kw.pop("signed", False)
    b = a[0]
    if isinstance(b, bytes):
        return int.from_bytes(b, order, signed=signed)
    if not isinstance(b, SBytes) or b.kind != "i" or len(b.chunks) != 1 or isinstance(b.chunks[0], Seg):
        raise Unsupported("int of bytes")
    v = b.chunks[0]
    if order != "big":
        raise Unsupported("byte order")
    if not signed and not M.decide(st, zint(v) >= 0):
        return simp_int(zint(v) + 2 ** 32)
    return v


@fn(struct.unpack)
def _unpack(M, st, a, kw):
    f, b = a[0], a[1]
    if isinstance(f, str) and isinstance(b, bytes):
        return M.native_call(st, struct.unpack, [f, b], {})
    if isinstance(b, bytes):
        raise Unsupported("unpack")
    order, count, code = fmt(f)
    n = nbytes(b)
    want = {"i": "i", "d": "d", "l": "i", "I": "i", "f": "f", "q": "q", "L": "i"}.get(code)
    if want is None or order != ">":
        raise Unsupported("unpack format")
    w = struct.calcsize(">" + code)
    if not _proved(M, st, tmul(w, count), n):
        if M.decide(st, zint(tmul(w, count)) != zint(n)):
            raise PyRaise(struct.error, "unpack requires a buffer of another size")
    if b.kind == "raw" and _proved(M, st, n, 0):
        return Tup([])
    if b.kind != want or code in "IL":
        raise Unsupported(f"bytes of kind {b.kind} read as {code}")
    return Tup(b.chunks)


def fmt(f):
    """(byte order, count, code) of a format such as '>12d'"""
    ps = list(pieces_of(f))
    order = ps[0][0] if ps and isinstance(ps[0], str) and ps[0][0] in "<>=!@" else "@"
    if order == "!":
        order = ">"
    code = ps[-1][-1] if isinstance(ps[-1], str) else ""
    if isinstance(f, str):
        c = f[1:-1] if order != "@" or f[0] == "@" else f[:-1]
        if c == "":
            return order, 1, code
        if not c.isdigit():
            raise Unsupported("unpack format")
        return order, int(c), code
    if len(ps) == 3 and len(ps[0]) == 1 and len(ps[2]) == 1 and ps[1].num is not None:
        return order, zint(ps[1].num), code
    raise Unsupported("unpack format")


def split_at(M, st, b, k):
    """(first k bytes, rest); k a number."""
    if isinstance(b, bytes):
        return b[:k], b[k:]
    if k == 0:
        return b"", b
    if isinstance(nbytes(b), int) and nbytes(b) <= k:
        return b, b""
    if b.kind == "mix":
        head, rest, left = [], list(b.chunks), k
        while rest and left:
            n = nbytes(rest[0])
            if isinstance(n, int) and n <= left:
                head.append(rest.pop(0))
                left -= n
                continue
            x, y = split_at(M, st, rest.pop(0), left)
            head.append(x)
            rest.insert(0, y)
            left = 0
        return concat(head), concat(rest)
    if b.kind in WIDTH and k % WIDTH[b.kind] == 0:
        n = k // WIDTH[b.kind]
        if any(isinstance(c, Seg) for c in b.chunks[:n]) or len(b.chunks) < n:
            raise Unsupported("slice of bytes")
        return typed(b.kind, b.chunks[:n]), typed(b.kind, b.chunks[n:])
    raise Unsupported("slice of bytes")


def bytes_getitem(M, st, o, k):
    if not isinstance(k, (SSlice, slice)):
        raise Unsupported("bytes index")
    a, b, c = (k.a, k.b, k.c) if isinstance(k, SSlice) else (k.start, k.stop, k.step)
    if c not in (None, 1) or not all(x is None or type(x) is int and x >= 0 for x in (a, b)):
        raise Unsupported("slice of bytes")
    if b is not None:
        o = split_at(M, st, o, b)[0]
    if a:
        o = split_at(M, st, o, a)[1]
    return o


def bytes_to_str(M, st, v):
    if v.kind == "s":
        return v.chunks[0]
    raise Unsupported("text of bytes")


models.bytes_getitem = bytes_getitem
models.bytes_to_str = bytes_to_str


@meth(bytes, "decode")
def b_decode(M, st, a, kw):
    if isinstance(a[0], SBytes):
        enc = a[1] if len(a) > 1 else kw.get("encoding", "utf-8")
        if enc not in ("ascii", "utf-8", "utf8", "latin-1", "latin1"):
            raise Unsupported("encoding")
        return bytes_to_str(M, st, a[0])
    return M.native_call(st, bytes.decode, a, kw)


def bytes_eq(M, st, a, b):
    """True / False / z3 Bool"""
    if _proved(M, st, nbytes(a), nbytes(b)) is False and M.prove(st, zint(nbytes(a)) != zint(nbytes(b))):
        return False
    x, y = (a, b) if isinstance(a, SBytes) else (b, a)
    if isinstance(y, bytes):
        if x.kind == "s":
            try:
                return M.eq(st, x.chunks[0], y.decode("ascii"))
            except UnicodeDecodeError:
                return False
        if y == b"":
            return mk(zint(nbytes(x)) == 0)
        raise Unsupported("compare bytes")
    if x.kind == y.kind == "raw":
        return x.t == y.t
    if x.kind == y.kind == "s":
        return M.eq(st, x.chunks[0], y.chunks[0])
    raise Unsupported("compare bytes")


def mk(c):
    c = z3.simplify(c)
    return True if z3.is_true(c) else False if z3.is_false(c) else c
