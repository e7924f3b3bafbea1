"""Trusted models of builtins and library operations on (partly) symbolic values."""
from __future__ import annotations
import builtins
import collections
import collections.abc
import contextlib
import fractions
import functools
import io
import itertools
import logging
import math
import operator
import os
import re
import struct
import types
import typing
from pathlib import Path, PurePath, PosixPath, PurePosixPath

import z3

from . import machine as mc
from . import prelude as P
from . import offsets, rx, strs
from .machine import (CALLED, STOP, DView, NotConcrete, SuperProxy, cur_norm, cur_read, freeze, has_frozen, mro_lookup,
                      same_term, thaw, thaw_from, zflt)
from .rx import Lex, Mixed
from .values import *

mc.PRELUDE = P
FUNCS, CLASSES, METHODS = {}, {}, {}
INST_ATTR, OBJ_ATTR, VAL_ATTR, NATIVE_ATTR, OBJ_NEXT = {}, {}, {}, {}, {}

INTLEX = Lex("INTTXT", r"-?\d+")
TEXTLEX = Lex("ANYTXT", r"[\t -~]*")
FTOA = z3.Function("FTOA", FltS, StrS)
VTOA = z3.Function("VTOA", ValS, StrS)


def fn(*keys):
    def d(h):
        for k in keys:
            FUNCS[k] = h
        return h
    return d


def klass(*keys):
    def d(h):
        for k in keys:
            CLASSES[k] = h
        return h
    return d


def meth(cls, *names):
    def d(h):
        for c in (cls if isinstance(cls, tuple) else (cls,)):
            for n in names:
                METHODS[(c, n)] = h
        return h
    return d


# ------------------------------------------------------------------------------------------------ purity
PURE_TYPES = (str, bytes, int, float, bool, complex, tuple, frozenset, fractions.Fraction, PurePath, PurePosixPath)
PURE = {len, abs, min, max, sorted, sum, repr, str, int, float, bool, complex, bytes, ord, chr, round, divmod, hash, hex,
        pow, tuple, list, dict, set, frozenset, range, slice, math.isqrt, math.sqrt, math.prod, math.floor, math.ceil,
        re.compile, re.escape, re.match, re.search, re.fullmatch, re.findall, re.sub, re.split, struct.unpack,
        struct.calcsize, struct.pack, fractions.Fraction, Path, PurePath, PosixPath, PurePosixPath, type, id, os.fspath,
        format, collections.Counter, collections.defaultdict, collections.OrderedDict, str.maketrans,
        itertools.combinations, itertools.product, itertools.combinations_with_replacement, itertools.permutations,
        operator.itemgetter, operator.attrgetter, enumerate, zip, reversed, os.path.join, os.path.splitext,
        os.path.basename, any, all, map, filter, iter, next, callable, functools.partial}
IMPURE_PATH = {"open", "unlink", "write_text", "write_bytes", "mkdir", "rename", "touch", "rmdir", "exists", "is_file",
               "glob", "stat", "read_text", "read_bytes", "iterdir", "rglob", "resolve", "is_dir", "absolute",
               "expanduser", "replace"}


def pure(f):
    try:
        if f in PURE:
            return True
    except TypeError:
        return False
    if isinstance(f, type):
        import enum
        return issubclass(f, enum.Enum) or f in PURE_TYPES or f.__module__ in ("enum",)
    slf = getattr(f, "__self__", None)
    nm = getattr(f, "__name__", "")
    if isinstance(slf, PurePath):
        return nm not in IMPURE_PATH
    if slf is not None and isinstance(slf, (str, bytes, int, float, complex, tuple, frozenset, fractions.Fraction,
                                            re.Pattern, re.Match, range)):
        return True
    if slf is not None and isinstance(slf, type) and issubclass(slf, (str, bytes, int, float, dict)):
        return True
    import enum
    if slf is not None and isinstance(slf, (enum.Enum, type(enum.Enum))):
        return True
    oc = getattr(f, "__objclass__", None)
    if oc is not None and oc in (str, bytes, int, float, complex, tuple, frozenset, dict, list, set, re.Pattern,
                                 re.Match, bool, range):
        return True
    if isinstance(f, types.FunctionType):
        q = f.__qualname__.split(".")[0]
        if f.__module__ == "pathlib" and f.__name__ not in IMPURE_PATH:
            return True
        if f.__module__ == "collections" and f.__qualname__.startswith("ChainMap.") and f.__name__ in (
                "get", "__getitem__", "__contains__", "keys", "items", "values", "__iter__", "__len__", "__bool__"):
            return True
        if f.__module__ in ("fractions", "posixpath", "enum"):
            return True
        if f.__module__ == "re":
            return True
    if isinstance(f, (operator.itemgetter, operator.attrgetter)):
        return True
    if getattr(f, "__module__", None) in ("math", "_operator", "operator"):
        return True
    return False


# ------------------------------------------------------------------------------------------------ sequences
def seq_items(M, st, v):
    """Chunk list of a concrete-shaped iterable (no user code needed), else None."""
    if isinstance(v, Tup):
        return v.items
    if isinstance(v, DView):
        cs = mc.view_chunks(st.get(v.ref).entries, v.kind)
        return tuple(Tup([c.k, c.v]) if isinstance(c, KV) else c for c in cs)
    if isinstance(v, str):
        return tuple(v)
    if isinstance(v, range):
        return tuple(v)
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, (HList, HSet)):
            return tuple(o.items)
        if isinstance(o, HDict):
            return tuple(mc.view_chunks(o.entries, "keys"))
    if isinstance(v, (set, frozenset, list, dict)):
        return tuple(M.lift(st, x) for x in v)
    return None


def concrete_items(M, st, v):
    items = seq_items(M, st, v)
    if items is None or has_seg(items):
        raise Unsupported("iteration over symbolic data in a primitive")
    return items


def expand(M, st, items, n):
    """Chunk list known to have length n -> n elements."""
    out = []
    for c in items:
        if isinstance(c, Seg):
            k = c.lo
            guard = 0
            while M.decide(st, zint(k) < zint(c.hi)):
                b = mc_seg_at(st, c, k)
                out += b
                k = tadd(k, 1)
                guard += 1
                if guard > n + 2:
                    raise Unsupported("expand")
        else:
            out.append(c)
    return out


def mc_seg_at(st, seg, k):
    if seg.facts is not None:
        for f in seg.facts(zint(k)):
            st.add(f)
    return [thaw(st, x) if has_frozen(x) else x for x in seg_at(seg, k)]


def take_front(M, st, items, n):
    items = list(items)
    out = []
    while len(out) < n:
        c = items.pop(0)
        if isinstance(c, Seg):
            if not M.decide(st, zint(c.lo) < zint(c.hi)):
                continue
            body = mc_seg_at(st, c, c.lo)
            items = body + [Seg(c.var, tadd(c.lo, 1), c.hi, c.body, c.facts)] + items
        else:
            out.append(c)
    return out, items


def take_back(M, st, items, n):
    items = list(items)
    out = []
    while len(out) < n:
        c = items.pop()
        if isinstance(c, Seg):
            if not M.decide(st, zint(c.lo) < zint(c.hi)):
                continue
            hi = tsub(c.hi, 1)
            body = mc_seg_at(st, c, hi)
            items = items + [Seg(c.var, c.lo, hi, c.body, c.facts)] + body
        else:
            out.insert(0, c)
    return items, out


def drop_empty(items):
    return [c for c in items if not (isinstance(c, Seg) and same_term(c.lo, c.hi))]


def group_of(seg, off, m):
    """(value of the variable, place in the group) of element off of a segment of groups of m."""
    if isinstance(off, int):
        return tadd(seg.lo, off // m), off % m
    from .summ import exact_div
    for r in range(m):
        q = exact_div(tsub(off, r), m)
        if q is not None:
            return tadd(seg.lo, q), r
    raise Unsupported("symbolic index into grouped segment")


def index_chunk(M, st, items, i, owner=None):
    """Element at logical position i (int or SInt); raises IndexError."""
    n = chunks_len(items)
    it = zint(i)
    if isinstance(n, int) and isinstance(i, int):
        if i < -n or i >= n:
            raise PyRaise(IndexError, "index out of range")
        if i < 0:
            i += n
    else:
        neg = M.decide(st, it < 0)
        if neg:
            i2 = tadd(n, it)
            if not M.decide(st, zint(i2) >= 0):
                raise PyRaise(IndexError, "index out of range")
            i = i2
        else:
            if not M.decide(st, it < zint(n)):
                raise PyRaise(IndexError, "index out of range")
            i = i if isinstance(i, int) else it
    # locate
    pos = 0
    for c in items:
        ln = chunk_len(c)
        end = tadd(pos, ln)
        here = (i < end) if isinstance(i, int) and isinstance(end, int) else M.decide(st, zint(i) < zint(end))
        if here:
            if not isinstance(c, Seg):
                return c
            off = tsub(i, pos)
            if len(c.body) != 1 or isinstance(c.body[0], Seg):
                m = chunks_len(c.body)
                if not isinstance(m, int) or has_seg(c.body):
                    raise Unsupported("index into nested segment")
                k, r = group_of(c, off, m)
                v = seg_at(c, k)[r]
            else:
                k = tadd(c.lo, off)
                v = seg_at(c, k)[0]
            if c.facts is not None:
                for f in c.facts(zint(k)):
                    st.add(f)
            return thaw_from(st, v, owner, c, k) if has_frozen(v) else v
        pos = end
    raise Unsupported("index_chunk")


def slice_chunks(M, st, items, a, b, c):
    items = list(items)
    if c not in (None, 1):
        if has_seg(items) or isinstance(a, SInt) or isinstance(b, SInt):
            if c == -1 and a is None and b is None:
                return reverse_chunks(items)
            if isinstance(c, int) and c > 1 and b is None and isinstance(a, (int, type(None))):
                return stride_chunks(M, st, items, a or 0, c)
            raise Unsupported("stepped symbolic slice")
        return items[a:b:c]
    if not has_seg(items) and not isinstance(a, SInt) and not isinstance(b, SInt):
        return items[a:b]
    n = chunks_len(items)

    def norm(x, dflt):
        if x is None:
            return dflt
        if isinstance(x, int) and isinstance(n, int):
            return max(0, min(n, x + n if x < 0 else x))
        x = zint(x)
        if M.decide(st, x < 0):
            y = tadd(x, n)
            if M.decide(st, zint(y) < 0):
                return 0
            return y
        if M.decide(st, x <= zint(n)):
            x = z3.simplify(x)
            return x.as_long() if z3.is_int_value(x) else x
        return n
    i, j = norm(a, 0), norm(b, n)
    if not M.decide(st, zint(i) < zint(j)):
        return []
    # drop i from the front, n-j from the back
    out = []
    pos = 0
    for ch in items:
        ln = chunk_len(ch)
        end = tadd(pos, ln)
        if not isinstance(ch, Seg):
            if M.decide(st, z3.And(zint(pos) >= zint(i), zint(pos) < zint(j))):
                out.append(ch)
        elif len(ch.body) == 1 and not isinstance(ch.body[0], Seg):
            lo = ch.lo if M.decide(st, zint(pos) >= zint(i)) else (
                ch.hi if M.decide(st, zint(end) <= zint(i)) else tadd(ch.lo, tsub(i, pos)))
            hi = ch.hi if M.decide(st, zint(end) <= zint(j)) else (
                ch.lo if M.decide(st, zint(pos) >= zint(j)) else tadd(ch.lo, tsub(j, pos)))
            if M.decide(st, zint(lo) < zint(hi)):
                out.append(Seg(ch.var, lo, hi, ch.body, ch.facts))
        else:
            full = M.decide(st, z3.And(zint(pos) >= zint(i), zint(end) <= zint(j)))
            none = (not full) and M.decide(st, z3.Or(zint(end) <= zint(i), zint(pos) >= zint(j)))
            if full:
                out.append(ch)
            elif not none:
                m = chunks_len(ch.body)
                if not isinstance(m, int) or has_seg(ch.body):
                    raise Unsupported("slice of grouped segment")
                # the groups and places where the slice starts and ends
                cut = []
                for x, beyond, edge in ((i, zint(i) <= zint(pos), 0), (j, zint(j) >= zint(end), None)):
                    cut.append((ch.lo if edge == 0 else ch.hi, 0) if M.decide(st, beyond) else group_of(ch, tsub(x, pos), m))
                (q1, r1), (q2, r2) = cut
                if M.decide(st, zint(q1) == zint(q2)):
                    out += list(seg_at(ch, q1))[r1:r2]
                else:
                    if r1:
                        out += list(seg_at(ch, q1))[r1:]
                        q1 = tadd(q1, 1)
                    if M.decide(st, zint(q1) < zint(q2)):
                        out.append(Seg(ch.var, q1, q2, ch.body, ch.facts))
                    if r2:
                        out += list(seg_at(ch, q2))[:r2]
        pos = end
    return out


def reverse_chunks(items):
    out = []
    for c in reversed(items):
        if isinstance(c, Seg):
            i = fresh_int("r")
            src = z3.simplify(zint(c.lo) + zint(c.hi) - 1 - i)
            body = tuple(reverse_chunks(subst_chunks(c.body, [(c.var, src)])))
            out.append(Seg(i, c.lo, c.hi, body))
        else:
            out.append(c)
    return out


def stride_chunks(M, st, items, a, c):
    """items[a::c] for a step that divides the group size of every segment."""
    out = []
    pos = 0
    for ch in items:
        if isinstance(ch, Seg):
            m = chunks_len(ch.body)
            if isinstance(pos, int) and isinstance(m, int) and not has_seg(ch.body) and m % c == 0:
                first = (a - pos) % c if pos < a or True else 0
                if pos < a and a - pos >= c:
                    raise Unsupported("stride start")
                idx = [x for x in range(m) if (pos + x - a) % c == 0]
                out.append(Seg(ch.var, ch.lo, ch.hi, [ch.body[x] for x in idx], ch.facts))
                pos = pos + 0 if False else tadd(pos, chunk_len(ch))
                if not isinstance(pos, int):
                    pos = a % c if False else _SymPos(pos)
                continue
            raise Unsupported("stride of symbolic sequence")
        if isinstance(pos, _SymPos):
            raise Unsupported("stride after symbolic part")
        if pos >= a and (pos - a) % c == 0:
            out.append(ch)
        pos += 1
    return out


class _SymPos:
    def __init__(self, t):
        self.t = t


# ------------------------------------------------------------------------------------------------ dicts
def key_hashable(M, st, k):
    if isinstance(k, Ref):
        o = st.heap[k.id]
        if isinstance(o, (HList, HDict)) or isinstance(o, HSet) and o.cls is set:
            raise PyRaise(TypeError, f"unhashable type: {M.cls_of(st, k).__name__!r}")
    if isinstance(k, Tup):
        for x in k.items:
            if not isinstance(x, Seg):
                key_hashable(M, st, x)


def dict_locate(M, st, entries, k):
    """('kv', n) | ('seg', n, idx) | None ; may fork."""
    for n, e in enumerate(entries):
        if isinstance(e, Seg):
            r = seg_key_index(M, st, e, k)
            if r is not None:
                return ("seg", n, r)
            continue
        c = M.eq(st, k, e.k)
        if c is True or (c is not False and M.decide(st, c)):
            return ("kv", n)
    return None


def seg_key_index(M, st, seg, k):
    """Index i in [lo,hi) with body key == k, or None when certainly absent."""
    if len(seg.body) != 1 or isinstance(seg.body[0], Seg):
        bodies = seg.body
    else:
        bodies = seg.body
    for b in bodies:
        if isinstance(b, Seg):
            # nested keys: only disjointness
            if keys_disjoint(M, st, b.body, k):
                continue
            raise Unsupported("lookup in nested key segment")
        key = b.k if isinstance(b, KV) else b
        i = mc.match_template(key, k, seg.var)
        if i is not None:
            inr = z3.And(zint(seg.lo) <= i, i < zint(seg.hi))
            if M.decide(st, inr):
                if len(seg.body) != 1:
                    raise Unsupported("lookup in grouped key segment")
                return i
            # not at that index: need the keys to be distinct
            if injective(M, key, seg.var) or any(True for _ in M.same_family(k, key)):
                continue
            raise Unsupported("key distinctness unknown")
        if keys_disjoint(M, st, [b], k):
            continue
        # constant key inside a segment, or unrelated family
        raise Unsupported(f"symbolic key lookup {k!r:.60} vs {key!r:.60}")
    return None


def injective(M, key, var):
    """The key has a part which is var + c, or the (var + c)th of values declared pairwise different, c independent of
    var: equal keys have equal var."""
    def linear(t):
        return mc.var_occurs(t, var) and not mc.var_occurs(z3.simplify(t - var), var)
    if isinstance(key, Tup) and any(not isinstance(x, Seg) and injective(M, x, var) for x in key.items):
        return True
    if isinstance(key, SInt) and linear(key.t):
        return True
    if isinstance(key, (SInt, SStr, Tup)):
        for v, tpl, outer in M.distinct:
            m = mc.match_family(tpl, key, v, outer)
            if m is not None and linear(m[0]) and not any(mc.var_occurs(zint(o), var) for o in m[1]):
                return True
    return False


def keys_disjoint(M, st, body, k):
    for b in body:
        if isinstance(b, Seg):
            if not keys_disjoint(M, st, b.body, k):
                return False
            continue
        key = b.k if isinstance(b, KV) else b
        if not val_disjoint(M, st, key, k):
            return False
    return True


def val_disjoint(M, st, a, b):
    try:
        if M.eq(st, a, b) is False:
            return True
    except Unsupported:
        pass
    if isinstance(a, Tup) and isinstance(b, Tup):
        if not has_seg(a.items) and not has_seg(b.items):
            if len(a.items) != len(b.items):
                return True
            return any(val_disjoint(M, st, x, y) for x, y in zip(a.items, b.items))
        return False
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return strs.disjoint(a, b)
    try:
        ca, cb = M.cls_of(st, a), M.cls_of(st, b)
    except Unsupported:
        return False
    num = (int, float, bool, complex)
    if ca in num and cb in num:
        return False
    return ca is not cb


def as_dict_ref(M, st, r):
    return st.heap[r.id]


def dict_find(M, st, r, k):
    """Value or None sentinel-less: returns NULLless None when absent (only for MATCH_KEYS)."""
    o = st.get(r)
    loc = dict_locate(M, st, o.entries, k)
    if loc is None:
        return None
    return dict_at(M, st, r, loc)


def dict_at(M, st, r, loc):
    o = st.get(r)
    if loc[0] == "kv":
        return o.entries[loc[1]].v
    seg = o.entries[loc[1]]
    i = loc[2]
    i = z3.simplify(i)
    i = i.as_long() if z3.is_int_value(i) else i
    v = subst(seg.body[0].v, [(seg.var, zint(i))])
    if seg.facts is not None:
        for f in seg.facts(zint(i)):
            st.add(f)
    return thaw_from(st, v, r.id, seg, i)


def dict_set(M, st, r, k, v):
    key_hashable(M, st, k)
    if isinstance(k, JoinStr):
        raise Unsupported("joined key")
    o = st.get(r)
    loc = dict_locate(M, st, o.entries, k)
    o = st.mut(r)
    if loc is None:
        o.entries.append(KV(k, v))
    elif loc[0] == "kv":
        o.entries[loc[1]] = KV(o.entries[loc[1]].k, v)
    else:
        seg = o.entries[loc[1]]
        i = z3.simplify(loc[2])
        i = i.as_long() if z3.is_int_value(i) else i
        parts = []
        if not same_term(seg.lo, i):
            parts.append(Seg(seg.var, seg.lo, i, seg.body, seg.facts))
        parts.append(KV(subst(seg.body[0].k, [(seg.var, zint(i))]), v))
        if not same_term(tadd(i, 1), seg.hi):
            parts.append(Seg(seg.var, tadd(i, 1), seg.hi, seg.body, seg.facts))
        o.entries[loc[1]:loc[1] + 1] = parts


def dict_del(M, st, r, k):
    o = st.get(r)
    loc = dict_locate(M, st, o.entries, k)
    if loc is None:
        raise PyRaise(KeyError, *([k] if isinstance(k, CONCRETE) else []))
    v = dict_at(M, st, r, loc)
    o = st.mut(r)
    if loc[0] == "kv":
        del o.entries[loc[1]]
    else:
        seg = o.entries[loc[1]]
        i = loc[2]
        o.entries[loc[1]:loc[1] + 1] = drop_empty([Seg(seg.var, seg.lo, i, seg.body, seg.facts),
                                                   Seg(seg.var, tadd(i, 1), seg.hi, seg.body, seg.facts)])
    return v


def dict_concrete(M, st, v):
    if isinstance(v, Ref):
        o = st.get(v)
        if isinstance(o, HDict):
            if has_seg(o.entries):
                raise Unsupported("symbolic keyword mapping")
            return o.entries
    if isinstance(v, (dict, types.MappingProxyType)):
        return [KV(M.lift(st, k), M.lift(st, x)) for k, x in v.items()]
    raise Unsupported("mapping expected")


def dict_update(M, st, r, v):
    """r.update(v) for a mapping v"""
    if isinstance(v, Ref) and isinstance(st.heap[v.id], HDict):
        src = st.heap[v.id].entries
        for e in src:
            if isinstance(e, Seg):
                o = st.get(r)
                # segment keys must be new
                for x in o.entries:
                    for b in ([x] if isinstance(x, KV) else x.body):
                        bk = b.k if isinstance(b, KV) else None
                        if bk is None or not keys_disjoint(M, st, e.body, bk):
                            raise Unsupported("update with overlapping symbolic keys")
                st.mut(r).entries.append(e)
            else:
                dict_set(M, st, r, e.k, e.v)
        return
    if isinstance(v, dict):
        for k, x in v.items():
            dict_set(M, st, r, M.lift(st, k), M.lift(st, x))
        return
    raise Unsupported("update from non-dict")


def set_add(M, st, r, x):
    key_hashable(M, st, x)
    o = st.get(r)
    if dict_locate_set(M, st, o.items, x):
        return
    st.mut(r).items.append(x)


def dict_locate_set(M, st, items, x):
    for e in items:
        if isinstance(e, Seg):
            if seg_key_index(M, st, e, x) is not None:
                return True
            continue
        c = M.eq(st, x, e)
        if c is True or (c is not False and M.decide(st, c)):
            return True
    return False


def list_extend(M, st, r, v):
    items = seq_items(M, st, v)
    if items is not None:
        st.mut(r).items.extend(thaw_items(st, items))
        return
    M.call(st, P.extend_, [r, v], {}, onret=("discard",))


def thaw_items(st, items):
    return [c if isinstance(c, Seg) else c for c in items]


# ------------------------------------------------------------------------------------------------ indexing
def getitem(M, st, o, k):
    if isinstance(o, Ref):
        h = st.heap[o.id]
        if isinstance(h, HList):
            if isinstance(k, SSlice):
                return st.new(HList(drop_empty(slice_chunks(M, st, h.items, *norm_slice(M, st, k)))))
            k = as_index(M, st, k)
            return index_chunk(M, st, h.items, k, o.id)
        if isinstance(h, HDict):
            key_hashable(M, st, k)
            loc = dict_locate(M, st, h.entries, k)
            if loc is not None:
                return dict_at(M, st, o, loc)
            return dict_missing(M, st, o, k)
        if isinstance(h, HInst):
            f = mro_lookup(h.cls, "__getitem__")
            if isinstance(f, functools.singledispatchmethod):
                impl = f.dispatcher.dispatch(M.cls_of(st, k))
                return M.call_(st, impl, [o, k], {})
            if f is None:
                raise PyRaise(TypeError, f"{h.cls.__name__!r} object is not subscriptable")
            return M.call_(st, f, [o, k], {})
        raise Unsupported(f"getitem on {type(h).__name__}")
    if isinstance(o, Tup):
        if isinstance(k, SSlice):
            return Tup(drop_empty(slice_chunks(M, st, o.items, *norm_slice(M, st, k))))
        if isinstance(k, SPos) and k.uid == o.uid and k.uid is not None and (k.off >= 0 or len(k.cur) > 1):
            c = mc.pos_find(st, k)
            if c is None:
                raise PyRaise(IndexError, "tuple index out of range")
            v, seg, kk, _ = mc.cur_read(st, o.items, c)
            return thaw_from(st, v, None, seg, kk) if seg is not None and has_frozen(v) else v
        return index_chunk(M, st, o.items, as_index(M, st, k), None)
    if isinstance(o, RMatch):
        return match_group(M, st, o, k)
    if isinstance(o, (SStr,)):
        if isinstance(k, SSlice):
            if isinstance(k.a, Off) or isinstance(k.b, Off):
                return off_slice(o, k)
            a, b, c = norm_slice(M, st, k)
            if c not in (None, 1) or isinstance(a, SInt) or isinstance(b, SInt):
                raise Unsupported("string slice")
            return strs.getslice(o, a, b)
        if isinstance(k, int):
            return strs.getslice(o, k, k + 1 if k != -1 else None)
        raise Unsupported("string index")
    if isinstance(o, SBytes):
        return bytes_getitem(M, st, o, k)
    if isinstance(o, Sym):
        raise Unsupported(f"subscript of {o!r:.50}")
    if isinstance(o, type):
        return o if not hasattr(o, "__class_getitem__") else o[M.native(st, k)] if not _is_enum(o) else o[M.native(st, k)]
    try:
        return M.lift(st, o[M.native(st, k)])
    except NotConcrete:
        raise Unsupported("symbolic index")
    except Exception as e:
        raise PyRaise(type(e), *[a for a in e.args if isinstance(a, CONCRETE)])


def _is_enum(o):
    import enum
    return isinstance(o, type) and issubclass(o, enum.Enum)


def as_index(M, st, k):
    if isinstance(k, (bool, int, SInt)):
        return k
    if isinstance(k, Sym):
        if isinstance(k, SBool):
            return SInt(zint(k))
        raise Unsupported("index type")
    raise PyRaise(TypeError, "indices must be integers or slices")


def norm_slice(M, st, s):
    return s.a, s.b, s.c


def dict_missing(M, st, r, k):
    h = st.heap[r.id]
    f = h.factory
    if h.cls is collections.Counter:
        return 0
    if f is None:
        raise PyRaise(KeyError, *([k] if isinstance(k, CONCRETE) else []))

    def put(s2, val):
        s2.mut(r).entries.append(KV(k, val))
        s2.frames[-1].stack.append(val)
    res = M.call_(st, f, [], {}, None)
    if res is CALLED:
        st.frames[-1].onret = ("hook", put)
        return CALLED
    st.mut(r).entries.append(KV(k, res))
    return res


def setitem(M, st, o, k, v):
    if isinstance(o, Ref):
        h = st.heap[o.id]
        if isinstance(h, HDict):
            dict_set(M, st, o, k, v)
            return
        if isinstance(h, HList):
            if isinstance(k, SSlice):
                raise Unsupported("slice assignment")
            list_store(M, st, o, as_index(M, st, k), v)
            return
        if isinstance(h, HInst):
            f = mro_lookup(h.cls, "__setitem__")
            M.call(st, f, [o, k, v], {}, onret=("discard",))
            return
    if isinstance(o, (Tup, str, SStr)):
        raise PyRaise(TypeError, "object does not support item assignment")
    raise Unsupported(f"setitem on {o!r:.50}")


def list_store(M, st, r, i, v):
    items = st.heap[r.id].items
    n = chunks_len(items)
    if isinstance(i, int) and not has_seg(items):
        if i < -n or i >= n:
            raise PyRaise(IndexError, "list assignment index out of range")
        st.mut(r).items[i] = v
        return
    it = zint(i)
    if M.decide(st, it < 0):
        i = tadd(it, n)
    if not M.decide(st, z3.And(zint(i) >= 0, zint(i) < zint(n))):
        raise PyRaise(IndexError, "list assignment index out of range")
    pos = 0
    for m, c in enumerate(items):
        end = tadd(pos, chunk_len(c))
        if M.decide(st, zint(i) < zint(end)):
            o = st.mut(r)
            if not isinstance(c, Seg):
                o.items[m] = v
                return
            if len(c.body) != 1:
                raise Unsupported("store into grouped segment")
            k = tadd(c.lo, tsub(i, pos))
            o.items[m:m + 1] = drop_empty([Seg(c.var, c.lo, k, c.body, c.facts), v,
                                           Seg(c.var, tadd(k, 1), c.hi, c.body, c.facts)])
            return
        pos = end


def delitem(M, st, o, k):
    if isinstance(o, Ref):
        h = st.heap[o.id]
        if isinstance(h, HDict):
            dict_del(M, st, o, k)
            return
        if isinstance(h, HList) and not has_seg(h.items):
            if isinstance(k, int):
                if k < -len(h.items) or k >= len(h.items):
                    raise PyRaise(IndexError, "list assignment index out of range")
                del st.mut(o).items[k]
                return
            if isinstance(k, SSlice):
                del st.mut(o).items[M.native(st, k)]
                return
    raise Unsupported("delitem")


def contains(M, st, c, x):
    """bool | SBool | CALLED"""
    if isinstance(c, SFlags) and isinstance(x, c.cls):
        t = c.has(x)
        return True if z3.is_true(t) else False if z3.is_false(t) else SBool(t)
    if isinstance(c, Ref):
        h = st.heap[c.id]
        if isinstance(h, HDict):
            key_hashable(M, st, x)
            return dict_locate(M, st, h.entries, x) is not None
        if isinstance(h, HSet):
            return dict_locate_set(M, st, h.items, x)
        if isinstance(h, HList):
            return _in_chunks(M, st, h.items, x)
        if isinstance(h, HInst):
            f = mro_lookup(h.cls, "__contains__")
            if isinstance(f, types.FunctionType):
                return M.call_(st, f, [c, x], {})
            return M.call_(st, _contains_iter, [c, x], {})
        return M.call_(st, _contains_iter, [c, x], {})
    if isinstance(c, Tup):
        return _in_chunks(M, st, c.items, x)
    if isinstance(c, DView):
        if c.kind == "keys":
            return dict_locate(M, st, st.get(c.ref).entries, x) is not None
        return _in_chunks(M, st, [Tup([e.k, e.v]) if isinstance(e, KV) else e
                                  for e in mc.view_chunks(st.get(c.ref).entries, c.kind)], x)
    if isinstance(c, SStr):
        if isinstance(x, str):
            return strs.contains(c, x)
        raise Unsupported("symbolic substring")
    if isinstance(c, str):
        if isinstance(x, SStr):
            if strs.disjoint_sub(x, c) if hasattr(strs, "disjoint_sub") else False:
                return False
            raise Unsupported("symbolic in literal")
        if not isinstance(x, str):
            raise PyRaise(TypeError, "'in <string>' requires string as left operand")
        return x in c
    if isinstance(c, range) and isinstance(x, SInt):
        if c.step == 1:
            return SBool(z3.And(x.t >= c.start, x.t < c.stop))
        raise Unsupported("stepped range membership")
    if hasattr(c, "__pyvc_contains__"):
        return c.__pyvc_contains__(M, st, x)
    if isinstance(c, SymRange):
        return range_contains(M, st, c, x)
    if isinstance(c, Sym):
        raise Unsupported("contains")
    try:
        return M.native(st, x) in c
    except NotConcrete:
        items = seq_items(M, st, M.lift(st, c) if not isinstance(c, type) else None)
        if items is None:
            raise Unsupported("symbolic member of native container")
        return _in_chunks(M, st, items, x)


def _contains_iter(it, x):
    for y in it:
        if y is x or y == x:
            return True
    return False


_contains_iter.__pyvc__ = True


def _in_chunks(M, st, items, x):
    conds = []
    for e in items:
        if isinstance(e, Seg):
            for b in e.body:
                if isinstance(b, Seg) or not val_disjoint(M, st, b, x):
                    i = mc.match_template(b, x, e.var) if not isinstance(b, Seg) else None
                    if i is not None and M.prove(st, z3.And(zint(e.lo) <= i, i < zint(e.hi))):
                        return True
                    raise Unsupported("membership in symbolic sequence")
            continue
        c = M.eq(st, x, e)
        if c is True:
            return True
        if c is not False:
            conds.append(c)
    if not conds:
        return False
    c = z3.Or(*conds) if len(conds) > 1 else conds[0]
    if M.prove(st, c):
        return True
    if M.prove(st, z3.Not(c)):
        return False
    return SBool(c)


# ------------------------------------------------------------------------------------------------ operators
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
       "%": operator.mod, "**": operator.pow, "|": operator.or_, "&": operator.and_, "^": operator.xor,
       "<<": operator.lshift, ">>": operator.rshift, "@": operator.matmul}
FOP = {n: z3.Function("F" + nm, FltS, FltS, FltS) for n, nm in
       {"+": "ADD", "-": "SUB", "*": "MUL", "/": "DIV", "**": "POW", "//": "FLOORDIV", "%": "MOD"}.items()}


FNEG = z3.Function("FNEG", FltS, FltS)


def fneg(t):
    return t.arg(0) if t.decl().eq(FNEG) else FNEG(t)


def addends(t):
    """Sums are taken as mathematical ones: in any order, grouped in any way."""
    return addends(t.arg(0)) + addends(t.arg(1)) if t.decl().eq(FOP["+"]) else [t]


def fsum(ts):
    ts = sorted((t for t in ts if not t.eq(strs.FLTI(z3.IntVal(0)))), key=str) or [strs.FLTI(z3.IntVal(0))]
    r = ts[0]
    for t in ts[1:]:
        r = FOP["+"](r, t)
    return r


def exact_div(x, b):
    """x / b when every term of x is a multiple of the number b."""
    from .summ import linear_parts
    c, parts = linear_parts(x)
    if c % b or any(k % b for k, _ in parts):
        return None
    r = z3.IntVal(c // b)
    for k, t in parts:
        r = r + (k // b) * t
    return z3.simplify(r)


def binop(M, st, op, a, b):
    inplace = op.endswith("=")
    if inplace:
        op = op[:-1]
    if isinstance(a, Tell):
        a = offsets.offset(st, a)
    if isinstance(b, Tell):
        b = offsets.offset(st, b)
    if not isinstance(a, (Sym, Ref, Tup, Frozen)) and not isinstance(b, (Sym, Ref, Tup, Frozen)):
        if isinstance(a, (Func, Bound, NativeMethod)) or isinstance(b, (Func, Bound)):
            raise Unsupported("binop on functions")
        try:
            return M.lift_new(st, OPS[op](a, b))
        except Exception as e:
            raise PyRaise(type(e), *[x for x in e.args if isinstance(x, CONCRETE)])
    num = (bool, int, SInt, SBool)
    if isinstance(a, SPos) and type(b) is int and op in ("+", "-"):
        return mc.pos_add(st, a, b if op == "+" else -b)
    if isinstance(a, num) and isinstance(b, num):
        x, y = zint(a), zint(b)
        if op == "+":
            return simp_int(x + y)
        if op == "-":
            return simp_int(x - y)
        if op == "*":
            return simp_int(x * y)
        if op == "//" or op == "%":
            if not M.decide(st, y != 0):
                raise PyRaise(ZeroDivisionError, "integer division or modulo by zero")
            if not M.decide(st, y > 0):
                raise Unsupported("division by negative")
            q = exact_div(x, b) if isinstance(b, int) else None
            if q is not None:
                return simp_int(q) if op == "//" else 0
            return simp_int(x / y if op == "//" else x % y)
        if op == "/":
            q = offsets.quotient(x, y)
            if q is not None:
                M.trusted.add("the quotient of file sizes (below 2**53) is exact")
                return SFlt(strs.FLTI(z3.simplify(q)))
            return SFlt(FOP["/"](zflt(a), zflt(b)))
        if op in "|&" and isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            ta = a.t if isinstance(a, SBool) else z3.BoolVal(a)
            tb = b.t if isinstance(b, SBool) else z3.BoolVal(b)
            return mkbool(z3.Or(ta, tb) if op == "|" else z3.And(ta, tb))
        if op == "**" and isinstance(b, int) and 0 <= b <= 4:
            r = z3.IntVal(1)
            for _ in range(b):
                r = r * x
            return simp_int(r)
        raise Unsupported(f"int op {op}")
    fl = num + (float, SFlt)
    if isinstance(a, fl) and isinstance(b, fl):
        if op not in FOP:
            raise Unsupported(f"float op {op}")
        x, y = zflt(a), zflt(b)
        if op == "+":
            return SFlt(fsum(addends(x) + addends(y)))
        if op == "-":
            return SFlt(fsum(addends(x) + [fneg(t) for t in addends(y)]))
        if op == "*" and str(x) > str(y):
            x, y = y, x
        return SFlt(FOP[op](x, y))
    if op == "+":
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return mkstr(pieces_of(a) + pieces_of(b))
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(a, Ref) and isinstance(st.heap[a.id], HList):
            if inplace:
                r = list_extend(M, st, a, b)
                if st.frames[-1].onret == ("discard",):
                    st.frames[-1].onret = ("inst", a)
                    return CALLED
                return a
            if isinstance(b, Ref) and isinstance(st.heap[b.id], HList):
                return st.new(HList(st.heap[a.id].items + st.heap[b.id].items))
            raise PyRaise(TypeError, "can only concatenate list")
        ca, cb = M.cls_of(st, a), M.cls_of(st, b)
        if {ca, cb} & {list, tuple, str} and ca is not cb:
            raise PyRaise(TypeError, f"unsupported operand type(s) for +: {ca.__name__!r} and {cb.__name__!r}")
    if op == "*":
        if isinstance(a, int) and isinstance(b, (Tup, Ref)):
            a, b = b, a
        if isinstance(a, Tup) and isinstance(b, int):
            return Tup(a.items * b)
        if isinstance(a, Ref) and isinstance(st.heap[a.id], HList) and isinstance(b, int):
            return st.new(HList(st.heap[a.id].items * b))
        if isinstance(a, SStr) and isinstance(b, int):
            return mkstr(a.pieces * b)
    if op == "|" and isinstance(a, Ref) and isinstance(b, Ref):
        ha, hb = st.heap[a.id], st.heap[b.id]
        if isinstance(ha, HDict) and isinstance(hb, HDict):
            if inplace:
                dict_update(M, st, a, b)
                return a
            r = st.new(HDict(ha.entries, ha.cls, ha.factory))
            dict_update(M, st, r, b)
            return r
        if isinstance(ha, HSet) and isinstance(hb, HSet):
            r = a if inplace else st.new(HSet(ha.items, ha.cls))
            for x in concrete_items(M, st, b):
                set_add(M, st, r, x)
            return r
    if op in "-&^" and isinstance(a, (Ref, DView)) and isinstance(b, (Ref, DView)):
        xs = seq_items(M, st, a)
        ys = seq_items(M, st, b)
        if xs is not None and ys is not None and op == "-":
            return set_difference(M, st, xs, ys)
        if xs is not None and ys is not None and op == "&":
            return set_intersection(M, st, xs, ys)
    if op == "%" and isinstance(a, str):
        raise Unsupported("%-format")
    if op == "/" and (isinstance(a, PurePath) or isinstance(b, PurePath)):
        raise Unsupported("symbolic path")
    for x, nm in ((a, f"__{_DUNDER[op]}__"), (b, f"__r{_DUNDER[op]}__")):
        if isinstance(x, Ref) and isinstance(st.heap[x.id], HInst):
            f = mro_lookup(st.heap[x.id].cls, nm)
            if isinstance(f, types.FunctionType):
                return M.call_(st, f, [x, b if x is a else a], {})
            h = METHODS.get((st.heap[x.id].cls, nm))
            if h is not None:
                return h(M, st, [x, b if x is a else a], {})
    try:
        na, nb = M.native(st, a), M.native(st, b)
    except NotConcrete:
        raise Unsupported(f"operator {op} on {a!r:.40} and {b!r:.40}")
    try:
        return M.lift_new(st, OPS[op](na, nb))
    except Exception as e:
        raise PyRaise(type(e), *[x for x in e.args if isinstance(x, CONCRETE)])


_DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "|": "or", "&": "and",
           "**": "pow", "^": "xor", "<<": "lshift", ">>": "rshift", "@": "matmul"}


def mkbool(t):
    t = z3.simplify(t)
    return True if z3.is_true(t) else False if z3.is_false(t) else SBool(t)


def set_difference(M, st, xs, ys):
    out = []
    for x in xs:
        if isinstance(x, Seg):
            for y in ys:
                if isinstance(y, Seg) or not keys_disjoint(M, st, x.body, y):
                    raise Unsupported("set difference")
            out.append(x)
            continue
        r = _in_chunks(M, st, ys, x)
        if r is True or (r is not False and M.decide(st, r.t)):
            continue
        out.append(x)
    return st.new(HSet(out))


def set_intersection(M, st, xs, ys):
    out = []
    for x in xs:
        if isinstance(x, Seg):
            if any(isinstance(y, Seg) or not keys_disjoint(M, st, x.body, y) for y in ys):
                raise Unsupported("set intersection")
            continue
        r = _in_chunks(M, st, ys, x)
        if r is True or (r is not False and M.decide(st, r.t)):
            out.append(x)
    return st.new(HSet(out))


CMP = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}


def compare(M, st, op, a, b):
    if op in ("==", "!="):
        c = M.eq(st, a, b)
        if op == "!=":
            return (not c) if isinstance(c, bool) else mkbool(z3.Not(c))
        return c if isinstance(c, bool) else mkbool(c)
    num = (bool, int, SInt, SBool)
    if isinstance(a, num) and isinstance(b, num):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return CMP[op](a, b)
        if isinstance(a, SPos) and op in (">=", "<") and isinstance(b, SInt) and same_term(b.t, chunks_len(a.chunks)):
            past = a.off >= 0 and mc.pos_find(st, a) is None
            return past if op == ">=" else not past
        if isinstance(a, SPos) and op in ("<", ">=") and b == 0 and a.off >= 0:
            return op == ">="
        return mkbool(CMP[op](zint(a), zint(b)))
    if isinstance(a, num + (float, SFlt)) and isinstance(b, num + (float, SFlt)):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return CMP[op](a, b)
        f = z3.Function("FLT_LT", FltS, FltS, z3.BoolSort())
        x, y = zflt(a), zflt(b)
        return {"<": lambda: SBool(f(x, y)), ">": lambda: SBool(f(y, x)),
                "<=": lambda: SBool(z3.Or(f(x, y), x == y)), ">=": lambda: SBool(z3.Or(f(y, x), x == y))}[op]()
    if isinstance(a, Ref) and isinstance(b, Ref):
        ha, hb = st.heap[a.id], st.heap[b.id]
        if isinstance(ha, HSet) and isinstance(hb, HSet) and op in ("<=", ">=", "<", ">"):
            xs, ys = (ha.items, hb.items) if op[0] == "<" else (hb.items, ha.items)
            return all(_in_chunks(M, st, ys, x) is True for x in xs)
    try:
        na, nb = M.native(st, a), M.native(st, b)
    except NotConcrete:
        raise Unsupported(f"ordering of {a!r:.40} and {b!r:.40}")
    try:
        return CMP[op](na, nb)
    except Exception as e:
        raise PyRaise(type(e), *[x for x in e.args if isinstance(x, CONCRETE)])


# ------------------------------------------------------------------------------------------------ str()
def to_str(M, st, v):
    if isinstance(v, (str, SStr, JoinStr)):
        return v
    if isinstance(v, SInt):
        return int_text(v)
    if isinstance(v, SFlt):
        return mkstr([Atom(FTOA(v.t), FTXT)])
    if hasattr(v, "parent") and isinstance(v, Sym):
        return v.text
    if isinstance(v, SVal):
        return mkstr([Atom(VTOA(v.t), TEXTLEX)])
    if isinstance(v, SBool):
        return mkstr([Atom(BTOA(v.t), BTXT)])
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, HInst):
            f = mro_lookup(o.cls, "__str__")
            if isinstance(f, types.FunctionType):
                return M.call_(st, f, [v], {})
            if issubclass(o.cls, BaseException):
                a = o.attrs["args"].items
                return a[0] if len(a) == 1 else "" if not a else opaque_text()
        return opaque_text()
    if isinstance(v, (Sym, Func, Bound, NativeMethod, RMatch)):
        return opaque_text()
    if isinstance(v, Tup):
        try:
            return str(M.native(st, v))
        except NotConcrete:
            return opaque_text()
    return str(v)


BTOA = z3.Function("BTOA", z3.BoolSort(), StrS)
BTXT = Lex("BTXT", r"True|False")
FTXT = Lex("FTXT", r"-?(?:\d+\.\d+|\d+(?:\.\d+)?e[+-]\d+|inf|nan)")
_opq = itertools.count(1)


def opaque_text():
    return mkstr([Atom(z3.String(f"opaque!{next(_opq)}"), TEXTLEX)])


def int_text(v):
    return mkstr([Atom(ITOA(v.t), INTLEX, SInt(v.t))])


def format_value(M, st, v, conv, spec):
    if conv == 2 and isinstance(v, Sym):
        return opaque_text()
    if spec:
        try:
            n = M.native(st, v)
            return format({0: lambda x: x, 1: str, 2: repr, 3: ascii}[conv](n), spec)
        except NotConcrete:
            return opaque_text()
    if conv in (2, 3):
        try:
            return repr(M.native(st, v))
        except NotConcrete:
            return opaque_text()
    r = to_str(M, st, v)
    if r is CALLED:
        raise Unsupported("__str__ in f-string")
    return r


# ------------------------------------------------------------------------------------------------ builtins
def len_(M, st, v):
    if isinstance(v, Tup):
        return as_int(chunks_len(v.items))
    if isinstance(v, DView):
        return as_int(chunks_len(st.get(v.ref).entries))
    if isinstance(v, SStr):
        return strs.length(v)
    if isinstance(v, SBytes):
        return as_int(binmodel.nbytes(v))
    if isinstance(v, SymRange):
        return v.length(M, st)
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, (HList, HSet)):
            return as_int(chunks_len(o.items))
        if isinstance(o, HDict):
            return as_int(chunks_len(o.entries))
        if isinstance(o, HInst):
            f = mro_lookup(o.cls, "__len__")
            if f is not None:
                return M.call_(st, f, [v], {})
        raise PyRaise(TypeError, "object has no len()")
    if isinstance(v, Sym):
        if isinstance(v, (SInt, SFlt, SBool)):
            raise PyRaise(TypeError, "object has no len()")
        raise Unsupported("len")
    try:
        return len(v)
    except TypeError as e:
        raise PyRaise(TypeError, *e.args)


@fn(len)
def _len(M, st, a, kw):
    return len_(M, st, a[0])


def isinstance_(M, st, v, cls):
    if isinstance(cls, Tup):
        return any(isinstance_(M, st, v, c) for c in cls.items)
    if isinstance(cls, types.UnionType) or typing.get_origin(cls) is typing.Union:
        return any(isinstance_(M, st, v, c) for c in typing.get_args(cls))
    if not isinstance(v, (Sym, Ref, Tup, Func, Bound, RMatch, SSlice, Partial, NativeMethod)):
        return isinstance(v, cls)
    if isinstance(v, SVal) and v.pytype is None:
        h = M.hooks.get("isinstance")
        if h:
            return h(M, st, v, cls)
        raise Unsupported("isinstance of unknown value")
    return issubclass(M.cls_of(st, v), cls)


@fn(isinstance)
def _isinstance(M, st, a, kw):
    return isinstance_(M, st, a[0], a[1])


@fn(issubclass)
def _issubclass(M, st, a, kw):
    c = a[1]
    return issubclass(a[0], tuple(c.items) if isinstance(c, Tup) else c)


@fn(hasattr)
def _hasattr(M, st, a, kw):
    v, nm = a
    if isinstance(v, Ref) and isinstance(st.heap[v.id], HInst):
        o = st.heap[v.id]
        return nm in o.attrs or mro_lookup(o.cls, nm) is not None or (o.cls, nm) in INST_ATTR
    if isinstance(v, Ref):
        h = OBJ_ATTR.get((type(st.heap[v.id]), nm))
        if h is not None:
            try:
                h(M, st, v)
                return True
            except PyRaise:
                return False
    if isinstance(v, (Ref, Sym, Tup)):
        return hasattr(M.cls_of(st, v), nm)
    return hasattr(v, nm)


@fn(getattr)
def _getattr(M, st, a, kw):
    try:
        return M.getattr_(st, a[0], a[1])
    except PyRaise as e:
        if e.cls is AttributeError and len(a) > 2:
            return a[2]
        raise


@fn(setattr)
def _setattr(M, st, a, kw):
    M.setattr_(st, a[0], a[1], a[2])
    return None


@fn(iter)
def _iter(M, st, a, kw):
    if len(a) == 2:
        return M.call_(st, P.iter_call, a, {})
    return M.get_iter(st, a[0])


@fn(next)
def _next(M, st, a, kw):
    it = a[0]
    d = a[1] if len(a) > 1 else NULL
    if isinstance(it, Ref) and isinstance(st.heap[it.id], HGen):
        r = M.resume(st, it, None, ("next", d))
    elif isinstance(it, Ref) and isinstance(st.heap[it.id], HInst):
        f = mro_lookup(st.heap[it.id].cls, "__next__")
        if f is None:
            raise PyRaise(TypeError, "not an iterator")
        r = M.call_(st, f, [it], {}, ("next", d))
    elif isinstance(it, Ref) and isinstance(st.heap[it.id], (HList, HDict, HSet)) or isinstance(it, (Tup, str)):
        raise PyRaise(TypeError, f"{M.cls_of(st, it).__name__!r} object is not an iterator")
    else:
        r = M.iter_next(st, it, ("next", d))
    if r is STOP:
        if d is not NULL:
            return d
        raise PyRaise(StopIteration)
    return r


FUNCS.update({any: P.any_, all: P.all_, itertools.filterfalse: P.filterfalse_, functools.reduce: P.reduce_,
              itertools.accumulate: P.accumulate_, itertools.pairwise: P.pairwise_})


def pyclass(cls, f):
    def h(M, st, a, kw):
        return M.call_(st, f, a, kw)
    CLASSES[cls] = h


for _c, _f in ((map, P.map_), (zip, P.zip_), (filter, P.filter_), (enumerate, P.enumerate_),
               (itertools.filterfalse, P.filterfalse_), (itertools.chain, P.chain_), (itertools.islice, P.islice_),
               (itertools.takewhile, P.takewhile_), (itertools.dropwhile, P.dropwhile_), (itertools.repeat, P.repeat_),
               (itertools.count, P.count_), (itertools.cycle, P.cycle_), (itertools.starmap, P.starmap_),
               (itertools.accumulate, P.accumulate_), (itertools.pairwise, P.pairwise_),
               (itertools.zip_longest, P.zip_longest_)):
    pyclass(_c, _f)
FUNCS.pop(itertools.filterfalse, None)
FUNCS.pop(itertools.accumulate, None)
FUNCS.pop(itertools.pairwise, None)


@meth(type, "from_iterable")
def _chain_from(M, st, a, kw):
    return M.call_(st, P.chain_from_, a[1:], {})


FUNCS[itertools.chain.from_iterable] = lambda M, st, a, kw: M.call_(st, P.chain_from_, a, {})


@klass(reversed)
def _reversed(M, st, a, kw):
    items = seq_items(M, st, a[0])
    if items is None:
        return M.call_(st, P.reversed_, a, {})
    return st.new(HIter(reverse_chunks([Tup([c.k, c.v]) if isinstance(c, KV) else c for c in items]), None, "rev"))


@klass(tuple)
def _tuple(M, st, a, kw):
    if not a:
        return Tup([])
    items = seq_items(M, st, a[0])
    if items is not None:
        return Tup(items)
    return M.call_(st, P.tuple_, a, {})


@klass(list)
def _list(M, st, a, kw):
    if not a:
        return st.new(HList([]))
    items = seq_items(M, st, a[0])
    if items is not None:
        return st.new(HList(items))
    return M.call_(st, P.list_, a, {})


@klass(set)
def _set(M, st, a, kw):
    if not a:
        return st.new(HSet([]))
    items = seq_items(M, st, a[0])
    if items is not None and not has_seg(items):
        r = st.new(HSet([]))
        for x in items:
            set_add(M, st, r, x)
        return r
    if isinstance(a[0], DView) and a[0].kind == "keys" or isinstance(a[0], Ref) and isinstance(
            st.heap[a[0].id], (HDict, HSet)):
        return st.new(HSet(items))
    return M.call_(st, P.set_, a, {})


@klass(frozenset)
def _frozenset(M, st, a, kw):
    r = _set(M, st, a, kw)
    if r is CALLED:
        st.frames.pop()
        return M.call_(st, P.frozenset_, a, {})
    st.mut(r).cls = frozenset
    return r


@fn(P.__as_frozenset__)
def _as_frozenset(M, st, a, kw):
    return st.new(HSet(st.get(a[0]).items, frozenset))


@fn(P.__as_tuple__)
def _as_tuple(M, st, a, kw):
    return Tup(st.get(a[0]).items)


@fn(P.__join__)
def _join(M, st, a, kw):
    return join_chunks(M, st, a[0], st.get(a[1]).items)


def join_chunks(M, st, sep, items):
    if has_seg(items) or any(isinstance(x, JoinStr) for x in items):
        if len(items) == 1 and isinstance(items[0], JoinStr):
            return items[0]
        return JoinStr(sep, items)
    ps = []
    for n, x in enumerate(items):
        if not isinstance(x, (str, SStr)):
            raise PyRaise(TypeError, f"sequence item {n}: expected str instance")
        if n:
            ps += pieces_of(sep)
        ps += pieces_of(x)
    return mkstr(ps)


def _make_dict(cls):
    def h(M, st, a, kw):
        factory = None
        if cls is collections.defaultdict:
            factory = a[0] if a else None
            a = a[1:]
        r = st.new(HDict([], cls, factory))

        def kws(s2):
            for k, v in kw.items():
                dict_set(M, s2, r, k, v)
        if a:
            v = a[0]
            if isinstance(v, Ref) and isinstance(st.heap[v.id], HDict) or isinstance(v, dict):
                dict_update(M, st, r, v)
            else:
                if kw:
                    raise Unsupported("dict(iterable, **kw)")
                f = P.counter_update_ if cls is collections.Counter else P.dict_pairs
                return M.call_(st, f, [r, v], {})
        kws(st)
        return r
    return h


CLASSES[dict] = _make_dict(dict)
CLASSES[collections.defaultdict] = _make_dict(collections.defaultdict)
CLASSES[collections.Counter] = _make_dict(collections.Counter)
CLASSES[collections.OrderedDict] = _make_dict(collections.OrderedDict)


class SymRange(Sym):
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def length(self, M, st):
        d = tsub(self.b if isinstance(self.b, int) else zint(self.b), self.a if isinstance(self.a, int) else zint(self.a))
        if M.decide(st, zint(d) >= 0):
            return as_int(d)
        return 0


def ceil_quotient(d, k):
    """ceil(d / k) of a sum d of multiples of k and a constant, None when d is no such sum."""
    d = z3.simplify(d)
    parts, c, q = d.children() if z3.is_add(d) else [d], 0, []
    for p in parts:
        if z3.is_int_value(p):
            c += p.as_long()
            continue
        m, rest = 1, p
        if z3.is_mul(p) and p.num_args() == 2 and z3.is_int_value(p.arg(0)):
            m, rest = p.arg(0).as_long(), p.arg(1)
        if m % k:
            return None
        q.append(rest * (m // k))
    return z3.simplify(z3.Sum(*q, z3.IntVal(-(-c // k))))


@klass(range)
def _range(M, st, a, kw):
    a = [x if not isinstance(x, SBool) else SInt(zint(x)) for x in a]
    for x in a:
        if not isinstance(x, (int, SInt)):
            if isinstance(x, Sym) and not isinstance(x, SFlt):
                raise Unsupported("range of symbol")
            raise PyRaise(TypeError, "object cannot be interpreted as an integer")
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        return SymRange(0, a[0])
    if len(a) == 2:
        return SymRange(a[0], a[1])
    if isinstance(a[2], int) and a[2] == 1:
        return SymRange(a[0], a[1])
    if isinstance(a[2], int) and a[2] > 0:
        # range(a, a + n*k, k) for a known n
        n = ceil_quotient(zint(a[1]) - zint(a[0]), a[2])
        if n is not None:
            i = fresh_int("i")
            some = M.decide(st, n >= 0)
            return Tup([Seg(i, 0, n, [as_int(z3.simplify(zint(a[0]) + i * a[2]))])] if some else [])
    raise Unsupported("stepped symbolic range")


def range_chunks(M, st, r):
    """Segment over range; requires deciding nothing (empty when hi<=lo)."""
    i = fresh_int("i")
    a, b = zint(r.a), zint(r.b)
    d = tsub(b, a)
    # shift to start at 0 so that loop indices are small
    if isinstance(r.a, int) and r.a == 0:
        return (Seg(i, 0, r.b.t if isinstance(r.b, SInt) else r.b, [SInt(i)]),)
    return (Seg(i, 0, d, [simp_int(i + a)]),)


_old_get_iter = mc.Machine.get_iter


def _get_iter(self, st, v, onret=None):
    if isinstance(v, SymRange):
        return st.new(HIter(range_chunks(self, st, v), None, "range"))
    return _old_get_iter(self, st, v, onret)


mc.Machine.get_iter = _get_iter
_old_seq_items = seq_items


def range_contains(M, st, r, x):
    if isinstance(x, (int, SInt)):
        return mkbool(z3.And(zint(x) >= zint(r.a), zint(x) < zint(r.b)))
    return False


_old_cls_of = mc.Machine.cls_of


def _cls_of(self, st, v):
    if isinstance(v, SymRange):
        return range
    if isinstance(v, SuperProxy):
        return super
    return _old_cls_of(self, st, v)


mc.Machine.cls_of = _cls_of


@klass(slice)
def _slice(M, st, a, kw):
    if len(a) == 1:
        return SSlice(None, a[0], None)
    return SSlice(a[0], a[1], a[2] if len(a) > 2 else None)


@meth(slice, "indices")
def _slice_indices(M, st, a, kw):
    s, n = a
    if isinstance(s, slice):
        s = SSlice(s.start, s.stop, s.step)
    try:
        return Tup(slice(M.native(st, s.a), M.native(st, s.b), M.native(st, s.c)).indices(M.native(st, n)))
    except NotConcrete:
        pass
    if s.c not in (None, 1):
        raise Unsupported("symbolic stepped slice indices")

    def norm(x, d):
        if x is None:
            return d
        t = zint(x)
        if M.decide(st, t < 0):
            t = z3.simplify(t + zint(n))
            if M.decide(st, t < 0):
                return 0
            return simp_int(t)
        if M.decide(st, t <= zint(n)):
            return simp_int(t)
        return n
    return Tup([norm(s.a, 0), norm(s.b, n), 1])


@klass(bool)
def _bool(M, st, a, kw):
    if not a:
        return False
    if isinstance(a[0], SBool):
        return a[0]
    if type(a[0]) is SInt:
        return mkbool(a[0].t != 0)
    r = M.truth(st, a[0])
    if r is CALLED:
        st.frames[-1].onret = ("boolval",)
        return CALLED
    return r


@klass(int)
def _int(M, st, a, kw):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return SInt(zint(v))
    if isinstance(v, SStr):
        if len(a) > 1:
            raise Unsupported("int base")
        return strs.to_int(v)
    if isinstance(v, SFlt):
        d = v.t.decl()
        if d.eq(strs.FLTI):
            return simp_int(v.t.arg(0))
        # int(x / y) of an exact division is modelled by the integer quotient when divisible
        if d.eq(FOP["/"]) and v.t.arg(0).decl().eq(strs.FLTI) and v.t.arg(1).decl().eq(strs.FLTI):
            x, y = v.t.arg(0).arg(0), v.t.arg(1).arg(0)
            if M.prove(st, z3.And(y > 0, x >= 0)):
                M.trusted.add("int(a/b) equals a//b for the small non-negative integers that occur")
                return simp_int(x / y)
        return SInt(strs.TRUNC(v.t))
    if isinstance(v, (Sym, Ref, Tup)):
        if isinstance(v, (Ref, Tup)):
            raise PyRaise(TypeError, "int() argument must be a string or a real number")
        raise Unsupported("int()")
    return M.native_call(st, int, a, kw)


@klass(float)
def _float(M, st, a, kw):
    if not a:
        return 0.0
    v = a[0]
    if isinstance(v, SFlt):
        return v
    if isinstance(v, (SInt, SBool)):
        return SFlt(strs.FLTI(zint(v)))
    if isinstance(v, SStr):
        return strs.to_float(v)
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, HInst) and o.cls is fractions.Fraction:
            return o.attrs["flt"]
    if isinstance(v, fractions.Fraction):
        return float(v)
    if isinstance(v, (Sym, Ref, Tup)):
        if isinstance(v, (Ref, Tup)):
            raise PyRaise(TypeError, "float() argument must be a string or a real number")
        raise Unsupported("float()")
    return M.native_call(st, float, a, kw)


@meth(float, "is_integer")
def _is_integer(M, st, a, kw):
    if not isinstance(a[0], SFlt):
        return float(a[0]).is_integer()
    if a[0].t.decl().eq(strs.FLTI):
        return True
    raise Unsupported("is_integer")


@klass(fractions.Fraction)
def _fraction(M, st, a, kw):
    v = a[0]
    if isinstance(v, SStr):
        return st.new(HInst(fractions.Fraction, {"flt": strs.to_fraction_float(v)}))
    return M.native_call(st, fractions.Fraction, a, kw)


@klass(complex)
def _complex(M, st, a, kw):
    if kw:
        a = a + [kw[k] for k in ("real", "imag") if k in kw]
    if all(isinstance(x, (int, float, complex, str)) for x in a):
        return M.native_call(st, complex, a, {})
    x = a[0] if a else 0.0
    y = a[1] if len(a) > 1 else 0.0
    if isinstance(x, (SStr,)):
        raise Unsupported("complex of text")
    if isinstance(x, (Ref, Tup)) or isinstance(y, (Ref, Tup, str, SStr)):
        raise PyRaise(TypeError, "complex() argument must be a number")
    if isinstance(x, complex) or isinstance(y, complex):
        raise Unsupported("complex of complex")
    return SVal(strs.CPLX(zflt(x), zflt(y)), complex)


@klass(str)
def _str(M, st, a, kw):
    if not a:
        return ""
    if isinstance(a[0], SBytes):
        return bytes_to_str(M, st, a[0])
    if isinstance(a[0], bytes):
        return M.native_call(st, str, a, kw)
    return to_str(M, st, a[0])


@klass(type)
def _type(M, st, a, kw):
    if len(a) != 1:
        raise Unsupported("type()")
    return M.cls_of(st, a[0])


@klass(super)
def _super(M, st, a, kw):
    if len(a) == 2:
        return SuperProxy(a[0], a[1])
    f = st.frames[-1]
    cls = st.get(f.loc["__class__"]).v
    return SuperProxy(cls, f.loc[f.code.co_varnames[0]])


@klass(property)
def _property(M, st, a, kw):
    raise Unsupported("property()")


@fn(sum)
def _sum(M, st, a, kw):
    return M.call_(st, P.sum_, a, kw)


@fn(abs)
def _abs(M, st, a, kw):
    v = a[0]
    if isinstance(v, SInt):
        return simp_int(z3.If(v.t >= 0, v.t, -v.t))
    if isinstance(v, SFlt):
        return SFlt(z3.Function("FABS", FltS, FltS)(v.t))
    return M.native_call(st, abs, a, kw)


@fn(min, max)
def _minmax_stub(M, st, a, kw):
    raise Unsupported("min/max")


def _mk_minmax(f):
    def h(M, st, a, kw):
        try:
            return M.native_call(st, f, a, kw)
        except Unsupported:
            pass
        items = list(a) if len(a) > 1 else list(concrete_items(M, st, a[0]))
        if kw or not all(isinstance(x, (int, SInt)) for x in items):
            raise Unsupported("min/max")
        r = items[0]
        for x in items[1:]:
            c = M.decide(st, zint(x) < zint(r) if f is min else zint(x) > zint(r))
            if c:
                r = x
        return r
    return h


FUNCS[min] = _mk_minmax(min)
FUNCS[max] = _mk_minmax(max)


@fn(sorted)
def _sorted(M, st, a, kw):
    if kw.get("key") is None and not kw.get("reverse"):
        items = seq_items(M, st, a[0])
        if items is not None and not has_seg(items):
            try:
                return st.new(HList([M.lift(st, x) for x in sorted(M.native(st, x) for x in items)]))
            except NotConcrete:
                raise Unsupported("sort of symbolic values")
            except TypeError as e:
                raise PyRaise(TypeError, *e.args)
    return M.native_call(st, sorted, a, kw)


@fn(math.isqrt)
def _isqrt(M, st, a, kw):
    v = a[0]
    if isinstance(v, SInt):
        r = SQRT(v.t)
        st.add(z3.And(r >= 0, r * r <= v.t, v.t < (r + 1) * (r + 1)))
        # isqrt(x*x) for a syntactic square
        sq = square_root(v.t)
        if sq is not None and M.prove(st, sq >= 0):
            return simp_int(sq)
        return SInt(r)
    return M.native_call(st, math.isqrt, a, kw)


SQRT = z3.Function("ISQRT", IntS, IntS)


def square_root(t):
    t = z3.simplify(t)
    if z3.is_mul(t) and t.num_args() == 2 and t.arg(0).eq(t.arg(1)):
        return t.arg(0)
    if t.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 2:
        return t.arg(0)
    return None


@fn(print)
def _print(M, st, a, kw):
    return None


for _n in ("debug", "info", "warning", "error", "critical", "exception", "log", "basicConfig", "warn"):
    if hasattr(logging, _n):
        FUNCS[getattr(logging, _n)] = lambda M, st, a, kw: None


@fn(typing.cast)
def _cast(M, st, a, kw):
    return a[1]


def _copy(M, st, a, kw):
    v = a[0]
    if isinstance(v, Ref):
        o = st.heap[v.id]
        if isinstance(o, HList):
            return st.new(HList(o.items))
        if isinstance(o, HDict):
            return st.new(HDict(o.entries, o.cls, o.factory))
        if isinstance(o, HSet):
            return st.new(HSet(o.items, o.cls))
        if isinstance(o, HInst):
            return st.new(HInst(o.cls, o.attrs))
        raise Unsupported("copy")
    return v


import copy as _copymod
FUNCS[_copymod.copy] = _copy


@fn(_copymod.deepcopy)
def _deepcopy(M, st, a, kw):
    return thaw(st, freeze(st, a[0]))


@fn(callable)
def _callable(M, st, a, kw):
    v = a[0]
    return isinstance(v, (Func, Bound, Partial, NativeMethod)) or callable(v) and not isinstance(v, (Sym, Ref, Tup))


@klass(functools.partial)
def _partial(M, st, a, kw):
    return Partial(a[0], a[1:], kw)


@fn(functools.wraps)
def _wraps(M, st, a, kw):
    return Partial(_identity_wraps, a, {})


def _identity_wraps(orig, f):
    return f


_identity_wraps.__pyvc__ = True


# ---- functools.singledispatch created during execution is not interpreted (decorators ran at import)
@fn(map)
@klass(map)
def _map(M, st, a, kw):
    if len(a) == 2 and a[0] is str:
        return M.call_(st, P.MapStr, a[1:], kw)
    return M.call_(st, P.map_, a, kw)


# ------------------------------------------------------------------------------------------------ str methods
def smeth(*names):
    return meth(str, *names)


def _s(x):
    if isinstance(x, JoinStr):
        raise Unsupported("method of joined text")
    return x


@smeth("strip")
def s_strip(M, st, a, kw):
    if isinstance(a[0], JoinStr):
        return JoinStrip(M, st, a[0])
    return strs.strip(_s(a[0]), a[1] if len(a) > 1 else None)


def JoinStrip(M, st, j):
    raise Unsupported("strip of joined text")


@smeth("lstrip")
def s_lstrip(M, st, a, kw):
    return strs.strip(_s(a[0]), a[1] if len(a) > 1 else None, True, False)


@smeth("rstrip")
def s_rstrip(M, st, a, kw):
    return strs.strip(_s(a[0]), a[1] if len(a) > 1 else None, False, True)


@smeth("split")
def s_split(M, st, a, kw):
    sep = a[1] if len(a) > 1 else kw.get("sep")
    mx = a[2] if len(a) > 2 else kw.get("maxsplit", -1)
    if sep is None:
        return st.new(HList(strs.split_ws(_s(a[0]), mx)))
    return st.new(HList(strs.split_sep(_s(a[0]), sep, mx)))


@smeth("rsplit")
def s_rsplit(M, st, a, kw):
    sep = a[1] if len(a) > 1 else kw.get("sep")
    mx = a[2] if len(a) > 2 else kw.get("maxsplit", -1)
    if isinstance(a[0], str):
        return st.new(HList(a[0].rsplit(sep, mx)))
    if sep is None:
        if mx == -1:
            return st.new(HList(strs.split_ws(_s(a[0]))))
        return st.new(HList(rsplit_ws(a[0], mx)))
    return st.new(HList(strs.split_sep(_s(a[0]), sep, mx, right=True)))


def rsplit_ws(s, n):
    words = strs.split_ws(s)
    if len(words) <= n:
        return words
    us, ats = strs.units(strs.strip(s))
    # cut before the last n words
    j = len(us)
    out = []
    for _ in range(n):
        e = j
        while j > 0 and not strs._unit_blank(us[j - 1]):
            j -= 1
        out.insert(0, strs.from_units(us, ats, j, e))
        while j > 0 and strs._unit_blank(us[j - 1]):
            j -= 1
    return [strs.from_units(us, ats, 0, j)] + out


@smeth("partition")
def s_partition(M, st, a, kw):
    if isinstance(a[0], str):
        return Tup(list(a[0].partition(a[1])))
    r = split_once(a[0], a[1])
    return Tup([r[0], a[1], r[1]] if len(r) == 2 else [r[0], "", ""])


def split_once(s, sep):
    try:
        return strs.split_sep(s, sep, 1)
    except Mixed:
        raise
    except Unsupported:
        if not isinstance(sep, str) or sep.isspace():
            raise
        k = first_of(s, sep)
        us, ats = strs.units(s)
        if k is None:
            return [s]
        return [strs.from_units(us, ats, 0, k), strs.from_units(us, ats, k + len(sep), len(us))]


@smeth("rpartition")
def s_rpartition(M, st, a, kw):
    r = strs.split_sep(_s(a[0]), a[1], 1, right=True)
    return Tup([r[0], a[1], r[1]] if len(r) == 2 else ["", "", r[0]])


@smeth("splitlines")
def s_splitlines(M, st, a, kw):
    if isinstance(a[0], JoinStr) and a[0].sep == "\n":
        raise Unsupported("splitlines of joined text")
    if isinstance(a[0], str):
        return M.native_call(st, str.splitlines, a, kw)
    r = strs.split_sep(a[0], "\n")
    if r and r[-1] == "":
        r.pop()
    if kw or len(a) > 1:
        raise Unsupported("splitlines keepends")
    return st.new(HList(r))


@smeth("startswith", "endswith")
def s_startswith(M, st, a, kw):
    raise AssertionError


def _sw(name):
    def h(M, st, a, kw):
        s, p = _s(a[0]), a[1]
        if len(a) > 2:
            raise Unsupported(name)
        ps = p.items if isinstance(p, Tup) else [p]
        for x in ps:
            if isinstance(s, str) and isinstance(x, str):
                r = getattr(s, name)(x)
            elif isinstance(x, SStr):
                raise Unsupported(name)
            else:
                r = strs.startswith(s, x) if name == "startswith" else strs.endswith(s, x)
            if r:
                return True
        return False
    return h


METHODS[(str, "startswith")] = _sw("startswith")
METHODS[(str, "endswith")] = _sw("endswith")


def _case(name):
    def h(M, st, a, kw):
        return strs.casemap(_s(a[0]), name)
    return h


for _n in ("lower", "upper", "title", "capitalize", "casefold"):
    METHODS[(str, _n)] = _case(_n)


@smeth("replace")
def s_replace(M, st, a, kw):
    return strs.replace(_s(a[0]), a[1], a[2], a[3] if len(a) > 3 else -1)


@smeth("translate")
def s_translate(M, st, a, kw):
    if isinstance(a[0], str):
        return M.native_call(st, str.translate, a, kw)
    tbl = a[1]
    if isinstance(tbl, Ref):
        tbl = M.native(st, tbl)
    out = []
    for p in a[0].pieces:
        if isinstance(p, str):
            out.append(p.translate(tbl))
        else:
            if any(ord(c) in tbl for c in p.cls.chars):
                raise Unsupported("translate inside field")
            out.append(p)
    return mkstr(out)


@smeth("join")
def s_join(M, st, a, kw):
    items = seq_items(M, st, a[1])
    if items is not None:
        return join_chunks(M, st, a[0], items)
    return M.call_(st, P.join_, a, {})


@smeth("format")
def s_format(M, st, a, kw):
    try:
        return M.native_call(st, str.format, a, kw)
    except Unsupported:
        return opaque_text()


@smeth("count")
def s_count(M, st, a, kw):
    if isinstance(a[0], str) and isinstance(a[1], str):
        return a[0].count(*a[1:])
    n = 0
    for p in _s(a[0]).pieces:
        if isinstance(p, str):
            n += p.count(a[1])
        elif set(a[1]) & p.cls.chars:
            raise Unsupported("count inside field")
    return n


def offset(s, cut):
    """The offset of unit boundary `cut` of s."""
    us, ats = strs.units(s)
    pre = strs.from_units(us, ats, 0, cut)
    if isinstance(pre, str):
        return len(pre)
    return Off(z3.Length(strs.str_term(pre)), s, cut)


def off_slice(s, k):
    if k.c not in (None, 1):
        raise Unsupported("string slice")
    us, ats = strs.units(s)

    def cut(x, default):
        if x is None:
            return default
        if isinstance(x, Off) and strs.eq(x.s, s) is True:
            return x.cut
        if isinstance(x, int) and x == 0:
            return 0
        raise Unsupported("string slice")
    i, j = cut(k.a, 0), cut(k.b, len(us))
    return strs.from_units(us, ats, i, max(i, j))


def first_of(s, sub):
    """Unit index of the first occurrence of the text, None when there is none."""
    fmt, us, ats = strs.fmt_of(s)
    spans = rx.decide(re.escape(sub), 0, "search", fmt)
    if spans is None:
        return None
    w = spans[0]
    if w[0] == "mixed":
        raise Mixed(w[1])
    if len(w) != 4 or w[2] or w[3] or w[1] - w[0] != len(sub):
        raise Unsupported("search for blank text")
    return w[0]


def _find(miss):
    def h(M, st, a, kw):
        if len(a) > 2:
            raise Unsupported("find with bounds")
        if not isinstance(a[1], str) or not a[1]:
            raise Unsupported("find of symbolic text")
        if isinstance(a[0], str):
            n = a[0].find(a[1])
        else:
            n = first_of(a[0], a[1])
            n = -1 if n is None else offset(a[0], n)
        if miss and isinstance(n, int) and n == -1:
            raise PyRaise(ValueError, "substring not found")
        return n
    return h


METHODS[(str, "find")] = _find(False)
METHODS[(str, "index")] = _find(True)


def _ischar(name):
    pred = {"isdigit": str.isdigit, "isnumeric": str.isnumeric, "isalpha": str.isalpha, "isspace": str.isspace,
            "isalnum": str.isalnum, "isdecimal": str.isdecimal}[name]

    def h(M, st, a, kw):
        s = a[0]
        if isinstance(s, str):
            return pred(s)
        some = False
        for p in _s(s).pieces:
            if isinstance(p, str):
                if not pred(p):
                    return False
                some = True
                continue
            cs = p.cls.chars
            if all(pred(c) for c in cs):
                if not p.cls.nullable:
                    some = True
                continue
            # every string of the class contains a failing character?
            bad = frozenset(c for c in cs if not pred(c))
            f = rx.Fmt([p.cls])
            r = rx.boolmatch("[" + "".join("\\" + c if not c.isalnum() else c for c in sorted(bad)) + "]", 0, "search", f)
            if r == "all":
                return False
            raise Mixed(f"{name} of {p.cls.name}")
        if not some:
            raise Mixed(f"{name} of possibly empty text")
        return True
    return h


for _n in ("isdigit", "isnumeric", "isalpha", "isspace", "isalnum", "isdecimal"):
    METHODS[(str, _n)] = _ischar(_n)


@smeth("removeprefix", "removesuffix")
def s_remove(M, st, a, kw):
    raise AssertionError


def _rm(name):
    def h(M, st, a, kw):
        s, x = _s(a[0]), a[1]
        if isinstance(s, str):
            return getattr(s, name)(x)
        if name == "removeprefix":
            return strs.getslice(s, len(x), None) if strs.startswith(s, x) else s
        return strs.getslice(s, None, -len(x)) if strs.endswith(s, x) else s
    return h


METHODS[(str, "removeprefix")] = _rm("removeprefix")
METHODS[(str, "removesuffix")] = _rm("removesuffix")


@smeth("encode")
def s_encode(M, st, a, kw):
    if isinstance(a[0], str):
        return a[0].encode(*a[1:], **kw)
    raise Unsupported("encode")


# ------------------------------------------------------------------------------------------------ containers
@meth(list, "append")
def l_append(M, st, a, kw):
    st.mut(a[0]).items.append(a[1])


@meth(list, "extend")
def l_extend(M, st, a, kw):
    items = seq_items(M, st, a[1])
    if items is not None:
        st.mut(a[0]).items.extend(items)
        return None
    return M.call_(st, P.extend_, a, {})


@meth(list, "insert")
def l_insert(M, st, a, kw):
    o = st.mut(a[0])
    i = a[1]
    if not isinstance(i, int):
        raise Unsupported("insert at symbolic index")
    if has_seg(o.items):
        if i == 0:
            o.items.insert(0, a[2])
            return None
        if i > 0 and not has_seg(o.items[:i]):
            o.items.insert(i, a[2])
            return None
        raise Unsupported("insert into symbolic list")
    o.items.insert(i, a[2])


@meth(list, "pop")
def l_pop(M, st, a, kw):
    o = st.get(a[0])
    i = a[1] if len(a) > 1 else -1
    if not M.truth(st, a[0]):
        raise PyRaise(IndexError, "pop from empty list")
    if i == -1:
        rest, tail = take_back(M, st, o.items, 1)
        st.mut(a[0]).items = drop_empty(rest)
        return tail[0]
    if i == 0:
        head, rest = take_front(M, st, o.items, 1)
        st.mut(a[0]).items = drop_empty(rest)
        return head[0]
    if has_seg(o.items):
        raise Unsupported("pop at index")
    if i < -len(o.items) or i >= len(o.items):
        raise PyRaise(IndexError, "pop index out of range")
    return st.mut(a[0]).items.pop(i)


@meth(list, "clear")
def l_clear(M, st, a, kw):
    st.mut(a[0]).items = []


@meth(list, "copy")
def l_copy(M, st, a, kw):
    return st.new(HList(st.get(a[0]).items))


@meth(list, "reverse")
def l_reverse(M, st, a, kw):
    st.mut(a[0]).items = reverse_chunks(st.get(a[0]).items)


@meth(list, "sort")
def l_sort(M, st, a, kw):
    if kw:
        raise Unsupported("sort key")
    r = _sorted(M, st, [a[0]], {})
    st.mut(a[0]).items = list(st.get(r).items)


@meth((list, tuple), "index")
def l_index(M, st, a, kw):
    items = seq_items(M, st, a[0])
    for n, x in enumerate(items):
        if isinstance(x, Seg):
            raise Unsupported("index in symbolic list")
        c = M.eq(st, x, a[1])
        if c is True or c is not False and M.decide(st, c):
            return n
    raise PyRaise(ValueError, "is not in list")


@meth((list, tuple), "count")
def l_count(M, st, a, kw):
    n = 0
    for x in concrete_items(M, st, a[0]):
        c = M.eq(st, x, a[1])
        if c is True or c is not False and M.decide(st, c):
            n += 1
    return n


@meth(dict, "get")
def d_get(M, st, a, kw):
    key_hashable(M, st, a[1])
    o = st.get(a[0])
    loc = dict_locate(M, st, o.entries, a[1])
    if loc is None:
        return a[2] if len(a) > 2 else None
    return dict_at(M, st, a[0], loc)


@meth(dict, "setdefault")
def d_setdefault(M, st, a, kw):
    key_hashable(M, st, a[1])
    o = st.get(a[0])
    loc = dict_locate(M, st, o.entries, a[1])
    if loc is not None:
        return dict_at(M, st, a[0], loc)
    v = a[2] if len(a) > 2 else None
    st.mut(a[0]).entries.append(KV(a[1], v))
    return v


@meth(dict, "keys")
def d_keys(M, st, a, kw):
    return DView(a[0], "keys") if isinstance(a[0], Ref) else M.lift(st, list(a[0].keys()))


@meth(dict, "values")
def d_values(M, st, a, kw):
    return DView(a[0], "values")


@meth(dict, "items")
def d_items(M, st, a, kw):
    return DView(a[0], "items")


@meth(dict, "pop")
def d_pop(M, st, a, kw):
    try:
        return dict_del(M, st, a[0], a[1])
    except PyRaise as e:
        if e.cls is KeyError and len(a) > 2:
            return a[2]
        raise


@meth(dict, "popitem")
def d_popitem(M, st, a, kw):
    o = st.get(a[0])
    if not o.entries:
        raise PyRaise(KeyError, "popitem(): dictionary is empty")
    e = o.entries[-1]
    if isinstance(e, Seg):
        if not M.decide(st, zint(e.lo) < zint(e.hi)):
            st.mut(a[0]).entries.pop()
            return d_popitem(M, st, a, kw)
        rest, tail = take_back(M, st, o.entries, 1)
        st.mut(a[0]).entries = drop_empty(rest)
        e = tail[0]
    else:
        st.mut(a[0]).entries.pop()
    return Tup([e.k, e.v])


@meth(dict, "update")
def d_update(M, st, a, kw):
    if len(a) > 1:
        v = a[1]
        if isinstance(v, Ref) and isinstance(st.heap[v.id], HDict) or isinstance(v, dict):
            dict_update(M, st, a[0], v)
        else:
            if kw:
                raise Unsupported("update(iterable, **kw)")
            return M.call_(st, P.dict_update_, [a[0], v], {})
    for k, v in kw.items():
        dict_set(M, st, a[0], k, v)


@meth(dict, "copy")
def d_copy(M, st, a, kw):
    o = st.get(a[0])
    return st.new(HDict(o.entries, o.cls, o.factory))


@meth(dict, "clear")
def d_clear(M, st, a, kw):
    st.mut(a[0]).entries = []


FUNCS[dict.fromkeys] = P.fromkeys_


@meth(dict, "fromkeys")
def d_fromkeys(M, st, a, kw):
    return M.call_(st, P.fromkeys_, a[1:] if isinstance(a[0], type) else a, {})


@meth(set, "add")
def set_add_m(M, st, a, kw):
    set_add(M, st, a[0], a[1])


@meth(set, "update")
def set_update_m(M, st, a, kw):
    return M.call_(st, P.set_update_, a, {})


@meth(set, "discard", "remove")
def set_discard(M, st, a, kw):
    o = st.get(a[0])
    for n, x in enumerate(o.items):
        if isinstance(x, Seg):
            raise Unsupported("discard")
        c = M.eq(st, x, a[1])
        if c is True or c is not False and M.decide(st, c):
            del st.mut(a[0]).items[n]
            return None
    return None


@meth((set, frozenset), "intersection")
def set_inter(M, st, a, kw):
    ys = seq_items(M, st, a[1])
    if ys is None:
        raise Unsupported("intersection")
    return set_intersection(M, st, st.get(a[0]).items, ys)


@meth((set, frozenset), "difference")
def set_diff(M, st, a, kw):
    ys = seq_items(M, st, a[1])
    if ys is None:
        raise Unsupported("difference")
    return set_difference(M, st, st.get(a[0]).items, ys)


@meth((set, frozenset), "union")
def set_union(M, st, a, kw):
    r = st.new(HSet(st.get(a[0]).items))
    for x in a[1:]:
        for y in concrete_items(M, st, x):
            set_add(M, st, r, y)
    return r


for _v in ("keys", "values", "items"):
    pass


@meth(types.GeneratorType, "send")
def gen_send(M, st, a, kw):
    g = st.get(a[0])
    if g.state == "new" and a[1] is not None:
        raise PyRaise(TypeError, "can't send non-None value to a just-started generator")
    r = M.resume(st, a[0], a[1], ("next", NULL))
    if r is STOP:
        raise PyRaise(StopIteration)
    return r


@meth(types.GeneratorType, "__next__")
def gen_next(M, st, a, kw):
    return _next(M, st, a, kw)


@meth(types.GeneratorType, "close")
def gen_close(M, st, a, kw):
    g = st.mut(a[0])
    g.state, g.frame = "done", None


# ------------------------------------------------------------------------------------------------ re
def _pat(p, flags=0):
    if isinstance(p, re.Pattern):
        return p.pattern, p.flags
    if isinstance(p, str):
        return p, flags
    raise Unsupported("symbolic pattern")


def re_do(M, st, mode, pat, flags, s):
    pv = M.hooks.get("re")
    if pv is not None:
        r = pv(M, st, mode, pat, flags, s)
        if r is not NotImplemented:
            return r
    pattern, fl = _pat(pat, flags)
    if isinstance(s, str):
        m = getattr(re, mode)(pattern, s, fl & ~re.UNICODE if isinstance(pat, str) else fl)
        if m is None:
            return None
        return RMatch(re.compile(pattern, fl), s, [m.group(0)] + list(m.groups()))
    if not isinstance(s, SStr):
        if s is None or isinstance(s, (int, float)):
            raise PyRaise(TypeError, "expected string or bytes-like object")
        raise Unsupported(f"regex on {s!r:.40}")
    r = strs.re_match(pattern, fl, mode, s)
    if r is None:
        return None
    groups, spans = r
    m = RMatch(re.compile(pattern, fl) if isinstance(pat, str) else pat, s, groups)
    m.spans = spans
    return m


def _flags(kw, a, n):
    f = kw.get("flags", a[n] if len(a) > n else 0)
    return int(f)


for _mode in ("match", "search", "fullmatch"):
    def _mk(mode):
        def h(M, st, a, kw):
            return re_do(M, st, mode, a[0], _flags(kw, a, 2), a[1])

        def hm(M, st, a, kw):
            if len(a) > 2:
                raise Unsupported("regex with pos")
            return re_do(M, st, mode, a[0], 0, a[1])
        FUNCS[getattr(re, mode)] = h
        METHODS[(re.Pattern, mode)] = hm
    _mk(_mode)


def re_findall(M, st, pat, flags, s):
    pattern, fl = _pat(pat, flags)
    rp = re.compile(pattern, fl)
    if isinstance(s, str):
        return st.new(HList([M.lift(st, x) for x in rp.findall(s)]))
    out, us, ats = strs.re_iter(pattern, fl, _s(s))
    res = []
    for spans in out:
        vals = [strs.span_value(x, us, ats) for x in spans]
        if len(vals) == 1:
            res.append(vals[0])
        elif len(vals) == 2:
            res.append(vals[1] if vals[1] is not None else "")
        else:
            res.append(Tup([v if v is not None else "" for v in vals[1:]]))
    return st.new(HList(res))


FUNCS[re.findall] = lambda M, st, a, kw: re_findall(M, st, a[0], _flags(kw, a, 2), a[1])
METHODS[(re.Pattern, "findall")] = lambda M, st, a, kw: re_findall(M, st, a[0], 0, a[1])


def re_finditer(M, st, pat, flags, s):
    pattern, fl = _pat(pat, flags)
    rp = re.compile(pattern, fl)
    if isinstance(s, str):
        ms = [RMatch(rp, s, [m.group(0)] + list(m.groups())) for m in rp.finditer(s)]
    else:
        out, us, ats = strs.re_iter(pattern, fl, _s(s))
        ms = [RMatch(rp, s, [strs.span_value(x, us, ats) for x in spans]) for spans in out]
    return st.new(HIter(ms, None, "finditer"))


FUNCS[re.finditer] = lambda M, st, a, kw: re_finditer(M, st, a[0], _flags(kw, a, 2), a[1])
METHODS[(re.Pattern, "finditer")] = lambda M, st, a, kw: re_finditer(M, st, a[0], 0, a[1])


def re_gaps(pattern, fl, s):
    """[(gap value)], [match spans values] alternating for symbolic s"""
    out, us, ats = strs.re_iter(pattern, fl, s)
    pos = 0
    gaps, ms = [], []
    for spans in out:
        i, j, lead, trail = spans[0]
        # blanks at the edges belong to the match when it may include them
        gi = i
        gap = strs.from_units(us, ats, pos, gi)
        if lead:
            # the match swallowed (some of) the blanks before it
            gap = strs.strip(gap, None, False, True)
        gaps.append(gap)
        ms.append([strs.span_value(x, us, ats) for x in spans])
        pos = j
        if trail:
            while pos < len(us) and strs._unit_blank(us[pos]):
                pos += 1
    gaps.append(strs.from_units(us, ats, pos, len(us)))
    return gaps, ms


def re_iter_blank(pattern, fl, s):
    """Split/sub support for patterns matching blanks or single literal separators, done per unit."""
    us, ats = strs.units(s)
    rp = re.compile(pattern, fl)
    # literal-only matching: every match must consist of literal characters or blank units
    out = []
    cur = []
    i = 0
    n = len(us)
    # treat the string as literal characters and opaque fields; a field must contain no matchable character
    first = first_chars(pattern, fl)
    for u in us:
        if not isinstance(u, str) and not u.blank and (u.chars & first):
            raise Unsupported("pattern may match inside a field")
    return us, ats, rp


def first_chars(pattern, fl):
    p = rx.prog(pattern, fl)
    s = set()
    for ins in p.code:
        if ins[0] == "char":
            s |= ins[1]
    return frozenset(s)


def re_split(M, st, pat, flags, s, maxsplit=0):
    pattern, fl = _pat(pat, flags)
    rp = re.compile(pattern, fl)
    if isinstance(s, str):
        return st.new(HList([M.lift(st, x) for x in rp.split(s, maxsplit)]))
    if maxsplit:
        raise Unsupported("split maxsplit")
    try:
        parts = lit_matches(rp, pattern, fl, _s(s))
    except Mixed:
        raise
    except Unsupported:
        return st.new(HList(first_split(pattern, fl, _s(s))))
    out = []
    for kind, v in parts:
        if kind == "gap":
            out.append(v)
        else:
            out += [M.lift(st, g) for g in v.groups()]
    return st.new(HList(out))


def first_split(pattern, fl, s):
    """re.split whose later matches are not determined: only the text before the first match is known."""
    fmt, us, ats = strs.fmt_of(s)
    spans = rx.decide(pattern, fl, "search", fmt)
    if spans is None:
        return [s]
    w = spans[0]
    if w[0] == "mixed":
        raise Mixed(w[1])
    if len(w) != 4 or w[2]:
        raise Unsupported("split around blanks")
    n = fresh_int("pieces")
    return [strs.from_units(us, ats, 0, w[0]),
            Seg(fresh_int("i"), 0, z3.If(n > 0, n, 1), [strs.Poison("text after the first separator")])]


class RunMatch:
    """Match of a maximal run of characters of one set; its text is not needed."""

    def groups(self):
        return ()

    def expand(self, repl):
        if "\\" in repl:
            raise Unsupported("group reference")
        return repl


def run_matches(run, us, ats):
    """The maximal runs of characters of the set: each unit is inside it, outside it, or refused."""
    out = []
    pos = i = 0
    n = len(us)

    def inside(u):
        if isinstance(u, str):
            return u in run
        if u.chars <= run:
            return True
        if not u.chars & run:
            return False
        raise Unsupported("pattern may match inside a field")
    while i < n:
        if not inside(us[i]):
            i += 1
            continue
        j = i
        sure = False
        while j < n and inside(us[j]):
            sure = sure or isinstance(us[j], str) or not us[j].nullable
            j += 1
        if not sure:
            raise Unsupported("run of possibly empty fields")
        for k in (i - 1, j):
            if 0 <= k < n and not isinstance(us[k], str) and us[k].nullable:
                # the neighbour may vanish and join two runs: harmless unless another run lies beyond
                b = k - 1 if k < i else k + 1
                if 0 <= b < n and inside(us[b]):
                    raise Unsupported("runs around a possibly empty field")
        out.append(("gap", strs.from_units(us, ats, pos, i)))
        out.append(("m", RunMatch()))
        pos = i = j
    out.append(("gap", strs.from_units(us, ats, pos, n)))
    return out


def lit_matches(rp, pattern, fl, s):
    """Alternate ('gap', value), ('m', native match): matches made of literal text only.

    Fields are replaced by private characters; a field containing characters the pattern could match is refused.
    """
    us, ats = strs.units(s)
    fc = first_chars(pattern, fl)
    run = rx.run_of(pattern, fl)
    if run is not None:
        return run_matches(run, us, ats)
    if any(x in pattern for x in (r"\b", r"\B", "(?<", "(?=", "(?!")):
        raise Unsupported("look-around in split")
    txt = []
    back = {}
    for n, u in enumerate(us):
        if isinstance(u, str):
            txt.append(u)
        elif u.blank:
            if u.nullable:
                raise Unsupported("split around possibly empty blanks")
            # one or more blanks: the pattern must treat any positive number alike
            txt.append(" ")
        else:
            if u.chars & fc:
                raise Unsupported("pattern may match inside a field")
            c = chr(0xE000 + n)
            txt.append(c)
    text = "".join(txt)
    if any(not isinstance(u, str) and u.blank for u in us):
        t2 = "".join("  " if (not isinstance(u, str) and u.blank) else t for u, t in zip(us, txt))
        if len(rp.split(text)) != len(rp.split(t2)):
            raise Unsupported("split depends on the number of blanks")
    out = []
    pos = 0
    for m in rp.finditer(text):
        if m.end() == m.start():
            raise Unsupported("empty match in split")
        if any(ord(c) >= 0xE000 for c in m.group(0)):
            raise Unsupported("pattern matches across a field")
        out.append(("gap", strs.from_units(us, ats, pos, m.start())))
        out.append(("m", m))
        pos = m.end()
    out.append(("gap", strs.from_units(us, ats, pos, len(us))))
    return out


FUNCS[re.split] = lambda M, st, a, kw: re_split(M, st, a[0], kw.get("flags", 0), a[1], a[2] if len(a) > 2 else kw.get("maxsplit", 0))
METHODS[(re.Pattern, "split")] = lambda M, st, a, kw: re_split(M, st, a[0], 0, a[1], a[2] if len(a) > 2 else 0)


def re_sub(M, st, pat, flags, repl, s):
    pattern, fl = _pat(pat, flags)
    rp = re.compile(pattern, fl)
    if isinstance(s, str) and isinstance(repl, str):
        return rp.sub(repl, s)
    if not isinstance(repl, str):
        raise Unsupported("sub with function on symbolic text")
    parts = lit_matches(rp, pattern, fl, _s(s))
    ps = []
    for kind, v in parts:
        ps += pieces_of(v) if kind == "gap" else [v.expand(repl)]
    return mkstr(ps)


FUNCS[re.sub] = lambda M, st, a, kw: re_sub(M, st, a[0], kw.get("flags", 0), a[1], a[2])
METHODS[(re.Pattern, "sub")] = lambda M, st, a, kw: re_sub(M, st, a[0], 0, a[1], a[2])


def readable(g):
    if isinstance(g, strs.Poison):
        raise Mixed(g.why)
    return g


def match_group(M, st, m, k):
    if isinstance(k, str):
        gi = m.pattern.groupindex
        if k not in gi:
            raise PyRaise(IndexError, "no such group")
        k = gi[k]
    if not isinstance(k, int):
        raise Unsupported("symbolic group")
    if k < 0 or k >= len(m.groups):
        raise PyRaise(IndexError, "no such group")
    return readable(m.groups[k])


@meth(re.Match, "group")
def m_group(M, st, a, kw):
    m = a[0]
    if len(a) == 1:
        return readable(m.groups[0])
    if len(a) == 2:
        return match_group(M, st, m, a[1])
    return Tup([match_group(M, st, m, k) for k in a[1:]])


@meth(re.Match, "groups")
def m_groups(M, st, a, kw):
    d = a[1] if len(a) > 1 else kw.get("default")
    return Tup([d if g is None else readable(g) for g in a[0].groups[1:]])


@meth(re.Match, "groupdict")
def m_groupdict(M, st, a, kw):
    d = a[1] if len(a) > 1 else kw.get("default")
    m = a[0]
    return st.new(HDict([KV(n, d if m.groups[i] is None else readable(m.groups[i]))
                         for n, i in sorted(m.pattern.groupindex.items(), key=lambda x: x[1])]))


def _bounds(which):
    def h(M, st, a, kw):
        m = a[0]
        g = a[1] if len(a) > 1 else 0
        if isinstance(g, str):
            g = m.pattern.groupindex[g]
        if isinstance(m.string, str):
            raise Unsupported("span")
        sp_ = getattr(m, "spans", None)
        if sp_ is None:
            raise Unsupported("match span")
        w = sp_[g]
        if w is None:
            return {"start": -1, "end": -1, "span": Tup([-1, -1])}[which]
        if len(w) != 4:
            raise Unsupported("match span")
        i, j = sp_.starts[g] if w[2] else w[0], sp_.ends[g] if w[3] else w[1]
        if i is None and which != "end" or j is None and which != "start":
            raise Unsupported("match span ends inside blanks")
        i, j = i if i is None else offset(m.string, i), j if j is None else offset(m.string, j)
        return {"start": i, "end": j, "span": Tup([i, j])}[which]
    return h


for _n in ("start", "end", "span"):
    METHODS[(re.Match, _n)] = _bounds(_n)


VAL_ATTR[(RMatch, "lastindex")] = lambda M, st, v: next(
    (i for i in range(len(v.groups) - 1, 0, -1) if readable(v.groups[i]) is not None), None)
VAL_ATTR[(RMatch, "string")] = lambda M, st, v: v.string
VAL_ATTR[(RMatch, "re")] = lambda M, st, v: v.pattern


# ------------------------------------------------------------------------------------------------ text files
def file_readline(M, st, r):
    o = st.get(r)
    if o.closed:
        raise PyRaise(ValueError, "I/O operation on closed file.")
    leaf, cur = cur_norm(st, o.chunks, o.cur)
    if leaf is None:
        st.mut(r).cur = cur
        return ""
    v, seg, k, nxt = cur_read(st, o.chunks, leaf)
    st.mut(r).cur = nxt
    return v


def fmeth(*names):
    return meth((io.TextIOWrapper, io.StringIO, io.TextIOBase, io.BufferedReader, io.BytesIO), *names)


@fmeth("readline", "__next__")
def f_readline(M, st, a, kw):
    return file_readline(M, st, a[0])


@fmeth("__iter__", "__enter__")
def f_self(M, st, a, kw):
    return a[0]


@fmeth("__exit__")
def f_exit(M, st, a, kw):
    st.mut(a[0]).closed = True
    return None


@fmeth("close")
def f_close(M, st, a, kw):
    st.mut(a[0]).closed = True
    return None


@fmeth("tell")
def f_tell(M, st, a, kw):
    o = st.get(a[0])
    if hasattr(o, "tell"):
        return o.tell(M, st, a[0])
    return Tell(a[0].id, o.cur)


@fmeth("seek")
def f_seek(M, st, a, kw):
    o = st.get(a[0])
    p = a[1]
    if hasattr(o, "seek"):
        return o.seek(M, st, a[0], *a[1:])
    if isinstance(p, int) and p == 0 and len(a) == 2:
        st.mut(a[0]).cur = ((0, None),)
        return 0
    if isinstance(p, Tell) and p.fid == a[0].id:
        st.mut(a[0]).cur = p.cur
        return p
    if isinstance(p, SInt) and len(a) == 2:
        return offsets.seek(M, st, a[0], p)
    raise Unsupported("seek")


@fmeth("read")
def f_read(M, st, a, kw):
    raise Unsupported("read() of text")


@fmeth("readlines")
def f_readlines(M, st, a, kw):
    return M.call_(st, P.readlines_, a, {})


@klass(io.StringIO)
def _stringio(M, st, a, kw):
    s = a[0] if a else ""
    if isinstance(s, JoinStr):
        chunks = join_lines(M, st, s)
    else:
        ps = strs.split_sep(s, "\n") if isinstance(s, SStr) else s.split("\n")
        chunks = [mkstr(pieces_of(x) + ("\n",)) for x in ps[:-1]] + ([ps[-1]] if ps[-1] != "" else [])
    f = HFile(chunks, None, io.StringIO)
    return st.new(f)


def join_lines(M, st, j):
    """Lines of sep.join(chunks) when every chunk is one full line."""
    out = []

    def full(x):
        ps = pieces_of(x)
        return bool(ps) and isinstance(ps[-1], str) and ps[-1].endswith("\n") and \
            sum(p.count("\n") if isinstance(p, str) else (1 if "\n" in p.cls.chars else 0) for p in ps) == 1

    def conv(cs, last):
        r = []
        for n, c in enumerate(cs):
            if isinstance(c, Seg):
                r.append(Seg(c.var, c.lo, c.hi, conv(c.body, False), c.facts))
            else:
                if not full(c):
                    raise Unsupported("StringIO of partial lines")
                r.append(c)
                if j.sep == "\n":
                    r.append("\n")
                elif j.sep != "":
                    raise Unsupported("StringIO separator")
        return r
    out = conv(j.chunks, True)
    if j.sep == "\n" and out and out[-1] == "\n":
        out.pop()
    elif j.sep == "\n" and out:
        # last chunk is a segment: its final separator does not exist
        c = out[-1]
        lastk = tsub(c.hi, 1)
        body = list(seg_at(c, lastk))[:-1]
        out[-1:] = [Seg(c.var, c.lo, lastk, c.body, c.facts)] + body
        if not M.decide(st, zint(c.lo) < zint(c.hi)):
            raise Unsupported("StringIO of possibly empty segment")
    return out


OBJ_ATTR[(HFile, "name")] = lambda M, st, v: _file_name(M, st, v)
OBJ_ATTR[(HFile, "closed")] = lambda M, st, v: st.get(v).closed


def _file_name(M, st, v):
    n = st.get(v).name
    if n is None:
        raise PyRaise(AttributeError, "no attribute 'name'")
    return n


def tell_eq(M, st, a, b):
    if isinstance(a, Tell) and isinstance(b, Tell):
        if a.fid != b.fid:
            return M.eq(st, offsets.offset(st, a), offsets.offset(st, b))
        f = st.heap[a.fid]
        return cur_eq(M, st, f.chunks, a.cur, b.cur)
    t, x = (a, b) if isinstance(a, Tell) else (b, a)
    if isinstance(x, int) and x == 0:
        f = st.heap[t.fid]
        return cur_eq(M, st, f.chunks, t.cur, ((0, None),))
    if isinstance(x, (int, SInt)):
        return M.eq(st, offsets.offset(st, t), x)
    raise Unsupported("compare tell")


def cur_eq(M, st, chunks, a, b):
    """Do two cursors denote the same position (lines are never empty)."""
    na = cur_norm(st, chunks, a)
    nb = cur_norm(st, chunks, b)
    a, b = na[0], nb[0]
    if a is None or b is None:
        return a is None and b is None
    if len(a) != len(b) or any(x[0] != y[0] for x, y in zip(a, b)):
        return False
    cs = []
    for x, y in zip(a, b):
        if x[1] is None:
            continue
        c = z3.simplify(zint(x[1]) == zint(y[1]))
        if z3.is_false(c):
            return False
        if not z3.is_true(c):
            cs.append(c)
    if not cs:
        return True
    return z3.And(*cs) if len(cs) > 1 else cs[0]


# ------------------------------------------------------------------------------------------------ bytes hooks
bytes_getitem = bytes_to_str = None      # set by binmodel


# ---- misc values
VAL_ATTR[(SVal, "real")] = lambda M, st, v: _cplx_part(v, 0)
VAL_ATTR[(SVal, "imag")] = lambda M, st, v: _cplx_part(v, 1)
RE = z3.Function("RE", ValS, FltS)
IM = z3.Function("IM", ValS, FltS)


def _cplx_part(v, n):
    if v.t.decl().eq(strs.CPLX):
        return SFlt(v.t.arg(n))
    if v.pytype is complex:
        return SFlt((RE, IM)[n](v.t))
    raise Unsupported("complex part")


INST_ATTR[(StopIteration, "value")] = lambda M, st, v: (st.get(v).attrs["args"].items or (None,))[0]


def getiter_dview_len(*a):
    pass


# views: methods used on them
for _kind in (type({}.keys()), type({}.values()), type({}.items())):
    METHODS[(_kind, "__len__")] = lambda M, st, a, kw: len_(M, st, a[0])
METHODS[(type({}.keys()), "intersection")] = lambda M, st, a, kw: (_ for _ in ()).throw(Unsupported("keys method"))
METHODS[(type({}.keys()), "isdisjoint")] = lambda M, st, a, kw: not st.get(
    set_intersection(M, st, seq_items(M, st, a[0]), seq_items(M, st, a[1]))).items


# ---- context managers from contextlib used by code under test
@fn(contextlib.suppress)
def _suppress(M, st, a, kw):
    raise Unsupported("contextlib.suppress")


@klass(contextlib.nullcontext)
def _nullctx(M, st, a, kw):
    return st.new(HInst(NullCtx, {"v": a[0] if a else None}))


class NullCtx:
    def __enter__(self):
        return self.v

    def __exit__(self, *a):
        return None


NullCtx.__enter__.__pyvc__ = True
NullCtx.__exit__.__pyvc__ = True


@klass(contextlib.suppress)
def _suppress_c(M, st, a, kw):
    return st.new(HInst(SuppressCtx, {"excs": Tup(a)}))


class SuppressCtx:
    def __enter__(self):
        return None

    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, self.excs)


SuppressCtx.__enter__.__pyvc__ = True
SuppressCtx.__exit__.__pyvc__ = True
