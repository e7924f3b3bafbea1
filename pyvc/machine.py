"""Symbolic execution of the real CPython 3.12 bytecode."""
from __future__ import annotations
import dis
import functools
import inspect
import io
import operator
import re
import sys
import types
import collections
import collections.abc
import builtins as _bi
from pathlib import Path

import z3

from . import strs
from .rx import Mixed
from .values import *

assert sys.version_info[:2] == (3, 12)

CALLED = object()      # a frame was pushed; its return value will be delivered
STOP = object()        # iterator exhausted


class Budget(Unsupported):
    pass


class DView(Sym):
    __slots__ = ("ref", "kind")

    def __init__(self, ref, kind):
        self.ref, self.kind = ref, kind


class SuperProxy:
    __slots__ = ("cls", "self")

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


# ------------------------------------------------------------------------------------------------ code cache
class CodeInfo:
    _cache = {}

    def __init__(self, code):
        self.code = code
        self.ins = [i for i in dis.get_instructions(code) if i.opname not in ("EXTENDED_ARG", "CACHE")]
        self.idx = {i.offset: n for n, i in enumerate(self.ins)}
        # jumps may target an EXTENDED_ARG prefix: map those offsets to the following real instruction
        offs = [i.offset for i in dis.get_instructions(code)]
        nxt = {}
        last = None
        for o in reversed(offs):
            if o in self.idx:
                last = self.idx[o]
            nxt[o] = last
        self.at = nxt
        self.exc = list(dis._parse_exception_table(code))
        self.heads = {}
        for n, i in enumerate(self.ins):
            if i.opname in ("JUMP_BACKWARD",):
                h = self.at[i.argval]
                self.heads[h] = max(self.heads.get(h, 0), n)
        self._live = self._clive = None

    @classmethod
    def get(cls, code):
        r = cls._cache.get(code)
        if r is None:
            r = cls._cache[code] = cls(code)
        return r

    def handler(self, offset):
        for e in self.exc:
            if e.start <= offset < e.end:
                return e
        return None

    def succ(self, n):
        i = self.ins[n]
        o = i.opname
        if o in ("RETURN_VALUE", "RETURN_CONST", "RAISE_VARARGS", "RERAISE"):
            s = []
        elif o in ("JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT"):
            s = [self.at[i.argval]]
        elif i.opcode in dis.hasjrel or i.opcode in dis.hasjabs:
            s = [n + 1, self.at[i.argval]]
        else:
            s = [n + 1]
        h = self.handler(i.offset)
        if h is not None:
            s = s + [self.at[h.target]]
        return [x for x in s if x < len(self.ins)]

    def live_at(self, n):
        """Names of fast locals live before instruction n."""
        if self._live is None:
            self._live = self._liveness(("LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "DELETE_FAST",
                                         "LOAD_CLOSURE", "LOAD_DEREF", "STORE_DEREF", "DELETE_DEREF", "MAKE_CELL"),
                                        ("STORE_FAST",))
        return self._live[n]

    def content_live_at(self, n):
        """Names of cells whose content may be read at or after instruction n by this frame."""
        if self._clive is None:
            self._clive = self._liveness(("LOAD_CLOSURE", "LOAD_DEREF", "DELETE_DEREF"), ("STORE_DEREF",))
        return self._clive[n]

    def _liveness(self, uses, defs):
        if True:
            N = len(self.ins)
            use, df = [set() for _ in range(N)], [set() for _ in range(N)]
            for k, i in enumerate(self.ins):
                o = i.opname
                if o in uses:
                    use[k].add(i.argval)
                elif o in defs:
                    df[k].add(i.argval)
            live = [set() for _ in range(N)]
            ch = True
            while ch:
                ch = False
                for k in range(N - 1, -1, -1):
                    out = set()
                    for s in self.succ(k):
                        out |= live[s]
                    new = use[k] | (out - df[k])
                    if new != live[k]:
                        live[k] = new
                        ch = True
            return live


class Frame:
    __slots__ = ("code", "info", "pc", "stack", "loc", "globals", "closure", "onret", "gen", "kwnames", "cells", "fn")

    def __init__(self, code, globals_, closure, fn=None):
        self.code = code
        self.info = CodeInfo.get(code)
        self.pc = 0
        self.stack = []
        self.loc = {}
        self.globals = globals_
        self.closure = closure
        self.onret = None
        self.gen = None
        self.kwnames = ()
        self.fn = fn

    def clone(self):
        f = object.__new__(Frame)
        f.code, f.info, f.pc = self.code, self.info, self.pc
        f.stack, f.loc = list(self.stack), dict(self.loc)
        f.globals, f.closure, f.onret, f.gen, f.kwnames, f.fn = \
            self.globals, self.closure, self.onret, self.gen, self.kwnames, self.fn
        return f


class Heap:
    """Object id -> object, in pages shared between clones until written to."""
    __slots__ = ("pages", "own")

    def __init__(self, items=()):
        self.pages, self.own = {}, set()
        for i, o in dict(items).items():
            self[i] = o

    def clone(self):
        h = Heap.__new__(Heap)
        h.pages, h.own = dict(self.pages), set()
        self.own = set()
        return h

    def __getitem__(self, i):
        return self.pages[i >> 6][i]

    def get(self, i, default=None):
        p = self.pages.get(i >> 6)
        return default if p is None else p.get(i, default)

    def __contains__(self, i):
        p = self.pages.get(i >> 6)
        return p is not None and i in p

    def page(self, i):
        n = i >> 6
        if n in self.own:
            return self.pages[n]
        p = self.pages[n] = dict(self.pages.get(n, ()))
        self.own.add(n)
        return p

    def __setitem__(self, i, o):
        self.page(i)[i] = o

    def __delitem__(self, i):
        del self.page(i)[i]

    def __iter__(self):
        for p in list(self.pages.values()):
            yield from list(p)

    keys = __iter__

    def items(self):
        for p in list(self.pages.values()):
            yield from list(p.items())

    def values(self):
        for p in list(self.pages.values()):
            yield from list(p.values())

    def __len__(self):
        return sum(map(len, self.pages.values()))


class State:
    def __init__(self):
        self.frames = []
        self.heap = Heap()
        self.pc = []
        self.owned = set()
        self.lifted = {}
        self.exc = []
        self.skiphead = False
        self.fail = {}
        self.heads = ()
        self.trace = ()
        self.ghost = {}

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        if type(self.heap) is dict:
            self.heap = Heap(self.heap)
        s.heap = self.heap.clone()
        s.pc = list(self.pc)
        s.owned = set()
        self.owned = set()
        s.lifted = self.lifted  # never changed in place
        s.exc = list(self.exc)
        s.skiphead = self.skiphead
        s.fail = dict(self.fail)
        s.heads = self.heads
        s.trace = self.trace
        s.ghost = dict(self.ghost)
        return s

    _ids = itertools.count(1)

    def new(self, obj):
        i = next(State._ids)
        self.heap[i] = obj
        self.owned.add(i)
        return Ref(i)

    def get(self, ref):
        return self.heap[ref.id]

    def mut(self, ref):
        i = ref.id
        o = self.heap[i]
        if i not in self.owned:
            o = o.copy()
            self.heap[i] = o
            self.owned.add(i)
        if getattr(o, "ro", False):
            raise Unsupported("mutation of an element with internal sharing")
        if o.origin is not None:
            writeback(self, i, o)
        return o

    @property
    def top(self):
        return self.frames[-1]

    def add(self, cond):
        if cond is True:
            return
        c = z3.simplify(cond)
        if z3.is_true(c):
            return
        if any(c.eq(x) for x in self.pc):
            return
        self.pc.append(c)


# ------------------------------------------------------------------------------------------------ freeze / thaw
def edge_counts(st, v):
    """References to each heap object from inside the structure v (each object visited once)."""
    cnt = {}
    todo = [v]
    seen = set()
    while todo:
        x = todo.pop()
        if isinstance(x, Ref):
            cnt[x.id] = cnt.get(x.id, 0) + 1
            if x.id in seen or x.id not in st.heap:
                continue
            seen.add(x.id)
            o = st.heap[x.id]
            if isinstance(o, (HList, HSet)):
                todo += o.items
            elif isinstance(o, HDict):
                todo += o.entries
            elif isinstance(o, HInst):
                todo += o.attrs.values()
        elif isinstance(x, Tup):
            todo += x.items
        elif isinstance(x, KV):
            todo += (x.k, x.v)
    return cnt


def freeze(st, v, seen=(), cnt=None):
    """Deep immutable image of a value (no heap references)."""
    if cnt is None:
        cnt = edge_counts(st, v)
    if isinstance(v, Ref):
        if v.id in seen:
            raise Unsupported("cyclic structure")
        seen = seen + (v.id,)
        o = st.heap[v.id]
        if isinstance(o, HList):
            r = FList([freeze(st, x, seen, cnt) for x in o.items])
        elif isinstance(o, HDict):
            r = FDict([freeze(st, x, seen, cnt) for x in o.entries], o.cls, o.factory)
        elif isinstance(o, HSet):
            r = FSet([freeze(st, x, seen, cnt) for x in o.items], o.cls)
        elif isinstance(o, HInst):
            r = FInst(o.cls, {k: freeze(st, x, seen, cnt) for k, x in o.attrs.items()})
        else:
            raise Unsupported(f"freeze {type(o).__name__}")
        if cnt.get(v.id, 0) > 1 or getattr(o, "ro", False):
            r.alias = True
        return r
    if isinstance(v, Tup):
        return Tup([freeze(st, x, seen, cnt) for x in v.items])
    if isinstance(v, Seg):
        return Seg(v.var, v.lo, v.hi, [freeze(st, x, seen, cnt) for x in v.body], v.facts)
    if isinstance(v, KV):
        return KV(freeze(st, v.k, seen, cnt), freeze(st, v.v, seen, cnt))
    return v


def has_frozen(v):
    if isinstance(v, Frozen):
        return True
    if isinstance(v, Tup):
        return any(has_frozen(x) for x in v.items)
    return False


def thaw(st, v, group=None, ro=False):
    """Fresh heap objects for frozen parts; group collects created refs (for write-back)."""
    if isinstance(v, Frozen):
        ro = ro or v.is_alias()
    if isinstance(v, FList):
        r = st.new(HList([thaw_chunk(st, x, group, ro) for x in v.items]))
    elif isinstance(v, FDict):
        r = st.new(HDict([thaw_chunk(st, x, group, ro) for x in v.entries], v.cls, v.factory))
    elif isinstance(v, FSet):
        r = st.new(HSet(list(v.items), v.cls))
    elif isinstance(v, FInst):
        r = st.new(HInst(v.cls, {k: thaw(st, x, group, ro) for k, x in v.attrs.items()}))
    elif isinstance(v, Tup) and any(has_frozen(x) for x in v.items):
        return Tup([thaw_chunk(st, x, group, ro) for x in v.items])
    else:
        return v
    if ro:
        st.heap[r.id].ro = True
    if group is not None:
        group.append(r.id)
    return r


def thaw_chunk(st, c, group, ro=False):
    if isinstance(c, Seg):
        if ro and has_frozen_chunk(c):
            raise Unsupported("element of a repetition with internal sharing")
        return c
    if isinstance(c, KV):
        return KV(thaw(st, c.k, group, ro), thaw(st, c.v, group, ro))
    return thaw(st, c, group, ro)


def has_frozen_chunk(c):
    if isinstance(c, Seg):
        return any(has_frozen_chunk(x) for x in c.body)
    if isinstance(c, KV):
        return has_frozen(c.k) or has_frozen(c.v)
    return has_frozen(c)


def thaw_from(st, v, owner, seg, k):
    """Thaw element read at index k of seg inside owner (heap id or None); mutation writes back."""
    if not has_frozen(v):
        return v
    group = []
    r = thaw(st, v, group)
    org = ("seg", owner, seg, k, r, tuple(group))
    for g in group:
        st.heap[g].origin = org
    return r


def writeback(st, oid, o):
    """First mutation of a thawed object: split the owner's segment around its index."""
    kind, owner, seg, k, root, group = o.origin
    if owner is None:
        raise Unsupported("mutation of an element read from a read-only sequence")
    own = st.heap[owner]
    lst = own.entries if isinstance(own, HDict) else own.items
    for n, c in enumerate(lst):
        if isinstance(c, Seg) and c.var.eq(seg.var):
            if not (M().prove(st, z3.And(zint(c.lo) <= zint(k), zint(k) < zint(c.hi)))):
                continue
            if len(c.body) != 1:
                raise Unsupported("write-back into multi-element segment")
            own = st.mut(Ref(owner))
            lst = own.entries if isinstance(own, HDict) else own.items
            key = subst(c.body[0].k, [(c.var, zint(k))]) if isinstance(own, HDict) else None
            el = KV(key, root) if isinstance(own, HDict) else root
            parts = []
            if not same_term(c.lo, k):
                parts.append(Seg(c.var, c.lo, k, c.body, c.facts))
            parts.append(el)
            if not same_term(tadd(k, 1), c.hi):
                parts.append(Seg(c.var, tadd(k, 1), c.hi, c.body, c.facts))
            lst[n:n + 1] = parts
            for g in group:
                if g in st.heap:
                    h = st.heap[g]
                    if g not in st.owned:
                        h = h.copy()
                        st.heap[g] = h
                        st.owned.add(g)
                    h.origin = None
            return
    raise Unsupported("write-back: element no longer in its container")


def same_term(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    d = z3.simplify(zint(a) - zint(b))
    return z3.is_int_value(d) and d.as_long() == 0


_M = None


def M():
    return _M


# ------------------------------------------------------------------------------------------------ cursors
def cur_chunks(top, cur):
    """The chunk list at the innermost level of the cursor."""
    cs = top
    for i, k in cur[:-1]:
        cs = cs[i].body
    return cs


def cur_subst(top, cur):
    pairs = []
    cs = top
    for i, k in cur[:-1]:
        seg = cs[i]
        pairs.append((seg, k))
        cs = seg.body
    return pairs


def cur_seg(top, cur, level):
    """Seg at cursor level (with outer indices substituted)."""
    cs = top
    pairs = []
    for lv in range(level + 1):
        i, k = cur[lv]
        seg = cs[i]
        if lv == level:
            return subst(seg, pairs) if pairs else seg
        pairs.append((seg.var, zint(k)))
        cs = seg.body
    raise AssertionError


def cur_norm(st, top, cur):
    """Advance the cursor over finished bodies / empty or finished segments; may ForkOn.

    Result: cursor at a leaf element, or None at end of everything.
    """
    while True:
        cs = cur_chunks(top, cur)
        i = cur[-1][0]
        if i >= len(cs):
            if len(cur) == 1:
                return None, cur
            # end of a segment body: next index
            (pi, k) = cur[-2]
            cur = cur[:-2] + ((pi, tadd(k, 1)), (0, None))
            continue
        if len(cur) >= 2 and i == 0 and not _in_seg(st, top, cur):
            cur = cur[:-2] + ((cur[-2][0] + 1, None),)
            continue
        if isinstance(cs[i], Seg):
            cur = _descend(top, cur, cs[i])
            continue
        return cur, cur


def _descend(top, cur, c):
    lo = c.lo
    if len(cur) > 1:
        lo = subst_bound(lo, [(s.var, zint(k)) for s, k in cur_subst(top, cur)])
    return cur[:-1] + ((cur[-1][0], lo), (0, None))


def _in_seg(st, top, cur):
    seg = cur_seg(top, cur, len(cur) - 2)
    k = cur[-2][1]
    return M().decide(st, zint(k) < zint(seg.hi))


def cur_boundary(st, top, cur, leaf=False):
    """Canonical form stopping at a symbolic segment boundary (does not decide k < hi).

    Returns cursor whose last two levels are ((i,k),(0,None)) with undecided range, or None (the cursor where it
    stopped with leaf).
    """
    while True:
        cs = cur_chunks(top, cur)
        i = cur[-1][0]
        if i >= len(cs):
            if len(cur) == 1:
                return cur if leaf else None
            (pi, k) = cur[-2]
            cur = cur[:-2] + ((pi, tadd(k, 1)), (0, None))
            continue
        if not (len(cur) >= 2 and i == 0):
            if not isinstance(cs[i], Seg):
                return cur if leaf else None
            cur = _descend(top, cur, cs[i])
            continue
        # now at a segment boundary
        seg = cur_seg(top, cur, len(cur) - 2)
        k = cur[-2][1]
        if isinstance(k, int) and isinstance(seg.hi, int):
            if k >= seg.hi:
                cur = cur[:-2] + ((cur[-2][0] + 1, None),)
            elif isinstance(cs[0], Seg):
                cur = _descend(top, cur, cs[0])
            else:
                return cur if leaf else None
            continue
        if same_term(k, seg.hi) or M().prove(st, zint(k) >= zint(seg.hi)):
            cur = cur[:-2] + ((cur[-2][0] + 1, None),)
            continue
        if isinstance(cs[0], Seg) and M().prove(st, zint(k) < zint(seg.hi)):
            cur = _descend(top, cur, cs[0])
            continue
        return cur


def cur_read(st, top, cur):
    """(value, seg-or-None, k, next cursor) at a leaf cursor."""
    cs = cur_chunks(top, cur)
    v = cs[cur[-1][0]]
    seg = k = None
    pairs = []
    for s, kk in cur_subst(top, cur):
        pairs.append((s.var, zint(kk)))
        seg, k = s, kk
        if s.facts is not None:
            for f in s.facts(zint(kk)):
                st.add(z3.substitute(f, *pairs) if pairs else f)
        st.add(z3.substitute(zint(s.lo), *pairs) <= zint(kk))
    if pairs:
        v = subst(v, pairs)
        if seg is not None:
            seg = cur_seg(top, cur, len(cur) - 2)
    nxt = cur[:-1] + ((cur[-1][0] + 1, None),)
    return v, seg, k, nxt


# ------------------------------------------------------------------------------------------------ positions
def inst_pos(o, a):
    """The integer attribute a of an instance that holds one tuple with nested repetitions, as a position in it."""
    ds = [v for v in o.attrs.values() if isinstance(v, Tup) and nested(v.items)]
    if len(ds) != 1:
        return as_int(a.t) if isinstance(a, SPos) else a
    d = ds[0]
    if isinstance(a, SPos):
        return a if a.uid == d.uid else as_int(a.t)
    if d.uid is None:
        d.uid = next(State._ids)
    return SPos(d.uid, d.items, ((0, None),), a)


def pos_leaf(st, chunks, cur):
    """The leaf the cursor stands on when that can be proved, else None."""
    try:
        return cur_norm(st, chunks, cur)[0]
    except ForkOn:
        return None


def pos_add(st, p, n):
    p = SPos(p.uid, p.chunks, p.cur, p.off + n)
    while p.off > 0:
        c = pos_leaf(st, p.chunks, p.cur)
        if c is None:
            break
        p = SPos(p.uid, p.chunks, c[:-1] + ((c[-1][0] + 1, None),), p.off - 1)
    return p


def pos_canon(st, p):
    while p.off >= 0:
        c = pos_leaf(st, p.chunks, p.cur)
        if c is None:
            break
        p = SPos(p.uid, p.chunks, c[:-1] + ((c[-1][0] + 1, None),), p.off - 1)
    return p


def pos_find(st, p):
    """Leaf cursor of position p, None when past the end; may ForkOn."""
    while p.off > 0:
        c, e = cur_norm(st, p.chunks, p.cur)
        if c is None:
            return None
        p = SPos(p.uid, p.chunks, c[:-1] + ((c[-1][0] + 1, None),), p.off - 1)
    cur = p.cur
    if p.off == 0:
        return cur_norm(st, p.chunks, cur)[0]
    for _ in range(-p.off):
        cur = pos_back(st, p.chunks, cur)
    return cur


def pos_back(st, chunks, cur):
    while True:
        cs = cur_chunks(chunks, cur)
        i = cur[-1][0]
        if i > 0:
            c = cs[i - 1]
            if not isinstance(c, Seg):
                return cur[:-1] + ((i - 1, None),)
            hi = c.hi
            if len(cur) > 1:
                hi = subst_bound(hi, [(s.var, zint(k)) for s, k in cur_subst(chunks, cur)])
            lo = c.lo
            if M().decide(st, zint(lo) < zint(hi)):
                cur = cur[:-1] + ((i - 1, tsub(hi, 1)), (len(c.body), None))
            else:
                cur = cur[:-1] + ((i - 1, None),)
            continue
        if len(cur) == 1:
            raise Unsupported("position before the start")
        pi, k = cur[-2]
        seg = cur_seg(chunks, cur, len(cur) - 2)
        if M().decide(st, zint(seg.lo) < zint(k)):
            cur = cur[:-2] + ((pi, tsub(k, 1)), (len(seg.body), None))
        else:
            cur = cur[:-2] + ((pi, None),)


# ------------------------------------------------------------------------------------------------ machine
PRELUDE = None


class Machine:
    def __init__(self, budget=400000, solver_ms=4000):
        global _M
        _M = self
        self.budget = budget
        self.steps = 0
        self.contracts = {}
        self.solver_ms = solver_ms
        self.nqueries = 0
        self.solver_time = 0.0
        self._pcache = {}
        self.distinct = []         # (var, template value)
        self.active = []
        self.interpreted = set()   # code objects interpreted
        self.obl = []              # recorded side obligations (name, ok)
        self.trusted = set()
        self.hooks = {}
        self.merging = False
        self.round = 1
        from . import models, binmodel, fsmodel, merge
        self.models = models
        models.binmodel = binmodel
        self.native_env = None
        self.interp_prefixes = ("castep_outputs", "pyvc.prelude", "vcontracts.")
        self.deadline = None
        self.nsum = 0
        self.why = ""
        self.verbose = False

    def merge(self, st, cond):
        from .merge import try_merge
        return try_merge(self, st, cond)

    def log(self, msg):
        if self.verbose:
            print("  " * len(self.active) + msg, flush=True)

    # ---------------- logic
    def prove(self, st, cond):
        if cond is True or cond is False:
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c) and not st.pc:
            return False
        import time
        key = (tuple(x.get_id() for x in st.pc), c.get_id())
        hit = self._pcache.get(key)
        if hit is not None:
            return hit[0]
        t = time.time()
        s = z3.Solver()
        s.set("timeout", self.solver_ms)
        for x in st.pc:
            s.add(x)
        s.add(z3.Not(c))
        for x in sum_axioms([c, *st.pc]):
            s.add(x)
        r = s.check() == z3.unsat
        self.solver_time += time.time() - t
        self.nqueries += 1
        self._pcache[key] = (r, c, list(st.pc))
        return r

    def decide(self, st, cond):
        """bool, or ForkOn when the path condition leaves it open."""
        if cond is True or cond is False:
            return cond
        if self.prove(st, cond):
            return True
        if self.prove(st, z3.Not(cond)):
            return False
        raise ForkOn(cond)

    def feasible(self, st):
        s = z3.Solver()
        s.set("timeout", self.solver_ms)
        for x in st.pc:
            s.add(x)
        self.nqueries += 1
        return s.check() != z3.unsat

    def check(self, st, ms=20000):
        s = z3.Solver()
        s.set("timeout", ms)
        for x in st.pc:
            s.add(x)
        self.nqueries += 1
        return str(s.check())

    def model_counts(self, st, g):
        s = z3.Solver()
        s.set("timeout", 10000)
        for x in st.pc:
            s.add(x)
        if s.check() != z3.sat:
            return None
        m = s.model()
        out = {}
        for n, t in g.counts.items():
            v = m.eval(t, model_completion=True)
            if z3.is_int_value(v):
                out[n] = v.as_long()
        return out

    # ---------------- lifting
    def lift(self, st, o):
        if isinstance(o, CONCRETE) or isinstance(o, (Sym, Ref, Tup, Func, Bound, NativeMethod, Frozen, RMatch, Tell,
                                                     SSlice, Partial)):
            return o
        if type(o) is tuple:
            return Tup([self.lift(st, x) for x in o])
        if type(o) in (list, dict, set, collections.defaultdict, collections.Counter, frozenset,
                       collections.OrderedDict):
            r = st.lifted.get(id(o))
            if r is None:
                if isinstance(o, list):
                    r = st.new(HList([self.lift(st, x) for x in o]))
                elif isinstance(o, dict):
                    r = st.new(HDict([KV(self.lift(st, k), self.lift(st, v)) for k, v in o.items()], type(o),
                                     getattr(o, "default_factory", None)))
                else:
                    r = st.new(HSet([self.lift(st, x) for x in o], type(o)))
                st.lifted = {**st.lifted, id(o): r}
                self._keep = getattr(self, "_keep", [])
                self._keep.append(o)
            return r
        return o

    def native(self, st, v):
        """Plain Python object for a fully concrete value, else Unsupported."""
        if isinstance(v, CONCRETE):
            return v
        if isinstance(v, Tup):
            if has_seg(v.items):
                raise NotConcrete()
            return tuple(self.native(st, x) for x in v.items)
        if isinstance(v, FList):
            return [self.native(st, x) for x in v.items]
        if isinstance(v, FDict):
            return {self.native(st, e.k): self.native(st, e.v) for e in v.entries}
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, HList) and not has_seg(o.items):
                return [self.native(st, x) for x in o.items]
            if isinstance(o, HDict) and not has_seg(o.entries):
                return {self.native(st, e.k): self.native(st, e.v) for e in o.entries}
            if isinstance(o, HSet) and not has_seg(o.items):
                return o.cls(self.native(st, x) for x in o.items)
            raise NotConcrete()
        if isinstance(v, SSlice):
            return slice(self.native(st, v.a), self.native(st, v.b), self.native(st, v.c))
        if isinstance(v, (Sym, Func, Bound, NativeMethod, RMatch, Seg, Partial, Frozen, Tell)):
            raise NotConcrete()
        return v

    # ---------------- python types
    def cls_of(self, st, v):
        if isinstance(v, SInt):
            return int
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SFlt):
            return float
        if isinstance(v, (SStr, JoinStr)):
            return str
        if isinstance(v, SBytes):
            return bytes
        if isinstance(v, (Tup,)):
            return tuple
        if isinstance(v, SVal):
            if v.pytype is None:
                raise Unsupported("type of unknown value")
            return v.pytype
        if isinstance(v, DView):
            return {"keys": type({}.keys()), "values": type({}.values()), "items": type({}.items())}[v.kind]
        if isinstance(v, (Func, Partial)):
            return types.FunctionType
        if isinstance(v, Bound):
            return types.MethodType
        if isinstance(v, SSlice):
            return slice
        if isinstance(v, RMatch):
            return re.Match
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, HList):
                return list
            if isinstance(o, (HDict, HSet, HInst)):
                return o.cls
            if isinstance(o, HGen):
                return types.GeneratorType
            if isinstance(o, HFile):
                return o.pycls or io.TextIOWrapper
            if isinstance(o, HIter):
                return o.kind if isinstance(o.kind, type) else type(iter([]))
            if hasattr(o, "pycls"):
                return o.pycls
            raise Unsupported(f"class of {o}")
        return v.pycls if isinstance(v, Sym) and hasattr(v, "pycls") else type(v)

    # ---------------- truth & equality
    def truth(self, st, v):
        """bool (decided; may fork) or CALLED when __bool__/__len__ of an instance must run."""
        if isinstance(v, SBool):
            return self.decide(st, v.t)
        if isinstance(v, SInt):
            return self.decide(st, v.t != 0)
        if isinstance(v, SStr):
            return strs.truth(v)
        if isinstance(v, SFlt):
            z = strs.FLT(z3.StringVal("0.0"))
            return self.decide(st, v.t != z)
        if isinstance(v, Tup):
            return self._nonempty(st, v.items)
        if isinstance(v, SVal):
            if v.truthy is not None:
                return v.truthy if isinstance(v.truthy, bool) else self.decide(st, v.truthy)
            return self.decide(st, z3.Function("TRUTH", ValS, z3.BoolSort())(v.t))
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, (HList, HSet)):
                return self._nonempty(st, o.items)
            if isinstance(o, HDict):
                return self._nonempty(st, o.entries)
            if isinstance(o, HInst):
                for nm in ("__bool__", "__len__"):
                    f = mro_lookup(o.cls, nm)
                    if f is not None and isinstance(f, types.FunctionType):
                        self.call(st, f, [v], {}, onret=("truth",))
                        return CALLED
                return True
            return True
        if isinstance(v, DView):
            return self._nonempty(st, st.get(v.ref).entries)
        if isinstance(v, JoinStr):
            raise Unsupported("truth of joined text")
        if isinstance(v, SBytes):
            n = self.models.binmodel.nbytes(v)
            return n > 0 if isinstance(n, int) else self.decide(st, n > 0)
        if isinstance(v, (Func, Bound, RMatch, Partial, NativeMethod)):
            return True
        return bool(v)

    def _nonempty(self, st, cs):
        if any(not isinstance(c, Seg) for c in cs):
            return True
        if not cs:
            return False
        n = chunks_len(cs)
        if isinstance(n, int):
            return n > 0
        return self.decide(st, n > 0)

    def eq(self, st, a, b):
        """True/False/z3 Bool"""
        if a is b:
            return True
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            r = strs.eq(a, b)
            if r is True or r is False:
                return r
            ix = self._distinct_eq(st, a, b)
            if ix is not None:
                return ix
            # same field family at two indices
            return r
        if isinstance(a, JoinStr) or isinstance(b, JoinStr):
            raise Unsupported("compare joined text")
        num = (bool, int, SInt, SBool)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                return a == b
            c = z3.simplify(zint(a) == zint(b))
            if z3.is_true(c) or z3.is_false(c):
                return z3.is_true(c)
            if isinstance(a, SInt) and isinstance(b, SInt):
                ix = self._distinct_eq(st, a, b)
                if ix is not None:
                    return ix
            return c
        fl = (float, SFlt)
        if isinstance(a, fl + num) and isinstance(b, fl + num):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return a == b
            c = z3.simplify(zflt(a) == zflt(b))
            return True if z3.is_true(c) else c
        if isinstance(a, Tup) and isinstance(b, Tup):
            ix = self._distinct_eq(st, a, b)
            if ix is not None:
                return ix
            return self._eq_chunks(st, a.items, b.items)
        if isinstance(a, SVal) and isinstance(b, SVal):
            c = z3.simplify(a.t == b.t)
            return True if z3.is_true(c) else c
        if isinstance(a, SVal) or isinstance(b, SVal):
            x, y = (a, b) if isinstance(a, SVal) else (b, a)
            if x.pytype is not None and isinstance(y, CONCRETE) and type(y) is not x.pytype and not (
                    isinstance(y, (int, float)) and x.pytype in (int, float, bool, object)) and x.pytype is not object:
                return False
            raise Unsupported("compare unknown value")
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return True
            oa, ob = st.heap[a.id], st.heap[b.id]
            if isinstance(oa, HList) and isinstance(ob, HList):
                return self._eq_chunks(st, oa.items, ob.items)
            if isinstance(oa, HDict) and isinstance(ob, HDict) and not oa.entries and not ob.entries:
                return True
            if isinstance(oa, HSet) and isinstance(ob, HSet) and not has_seg(oa.items) and not has_seg(ob.items):
                return set(self.native(st, a)) == set(self.native(st, b))
            if type(oa) is not type(ob):
                return False
            raise Unsupported("compare heap objects")
        if isinstance(a, Tell) or isinstance(b, Tell):
            return self.models.tell_eq(self, st, a, b)
        if isinstance(a, (SBytes, bytes)) and isinstance(b, (SBytes, bytes)) and not (
                isinstance(a, bytes) and isinstance(b, bytes)):
            return self.models.binmodel.bytes_eq(self, st, a, b)
        if isinstance(a, SBytes) or isinstance(b, SBytes):
            return False
        if isinstance(a, (Sym, Ref, Tup)) or isinstance(b, (Sym, Ref, Tup)):
            ca, cb = self.cls_of(st, a), self.cls_of(st, b)
            for x, c in ((a, ca), (b, cb)):
                if isinstance(x, Ref) and isinstance(st.heap[x.id], HInst) and \
                        isinstance(mro_lookup(c, "__eq__"), types.FunctionType):
                    raise Unsupported("user __eq__")
            return False
        return bool(a == b)

    def _eq_chunks(self, st, xs, ys):
        if has_seg(xs) or has_seg(ys):
            raise Unsupported("compare symbolic sequences")
        if len(xs) != len(ys):
            return False
        cs = []
        for x, y in zip(xs, ys):
            c = self.eq(st, x, y)
            if c is False:
                return False
            if c is not True:
                cs.append(c)
        if not cs:
            return True
        return z3.And(*cs) if len(cs) > 1 else cs[0]

    def same_family(self, a, b):
        """Index pairs of a and b in a family of values declared pairwise different."""
        if isinstance(a, SStr) and isinstance(b, SStr):
            a, b = strs.cancel(a, b)
            if isinstance(a, SStr) and isinstance(b, SStr) and len(a.pieces) == 1 == len(b.pieces):
                x, y = a.pieces[0], b.pieces[0]
                if all(not isinstance(p, str) and z3.is_app(p.t) and p.t.decl().eq(ITOA) for p in (x, y)):
                    yield x.t.arg(0), y.t.arg(0)
        for var, tpl, outer in self.distinct:
            ma = match_family(tpl, a, var, outer)
            if ma is None:
                continue
            mb = match_family(tpl, b, var, outer)
            if mb is None:
                continue
            if all(same_term(x, y) for x, y in zip(ma[1], mb[1])):
                yield ma[0], mb[0]

    def _distinct_eq(self, st, a, b):
        for ia, ib in self.same_family(a, b):
            c = z3.simplify(ia == ib)
            return True if z3.is_true(c) else False if z3.is_false(c) else c
        return None

    # ---------------- running
    def start(self, fn, args, kwargs=None, st=None):
        st = st or State()
        base = Frame(_idle.__code__, {}, None)
        base.pc = 0
        st.frames.append(base)
        self.call(st, fn, list(args), dict(kwargs or {}))
        return st

    def run(self, st):
        """Explore all paths; [(kind, state, value)] with kind 'return' | 'raise'."""
        outs, arr, esc = self.explore([st], None)
        return outs

    def explore(self, states, stop, leave=None, limit=None):
        outs, arrivals, escapes = [], [], []
        work = list(states)
        import time
        start = self.steps
        while work:
            st = work.pop()
            while True:
                self.steps += 1
                if limit is not None and self.steps - start > limit:
                    raise TrialFail("round too long")
                if self.steps > self.budget:
                    raise Budget("step budget exhausted")
                if self.deadline and (self.steps & 63) == 0 and time.time() > self.deadline:
                    raise Budget("time budget exhausted")
                if len(st.frames) == 1:
                    # program finished
                    f = st.frames[0]
                    if f.stack:
                        outs.append(("return", st, f.stack[-1]))
                    else:
                        outs.append(("raise", st, st.ghost.get("exc")))
                    break
                f = st.frames[-1]
                if leave is not None and leave(st):
                    escapes.append(st)
                    break
                if f.pc in f.info.heads:
                    if stop is not None and not st.skiphead:
                        r = stop(st)
                        if r == "arrive":
                            arrivals.append(st)
                            break
                        if r == "fail":
                            raise TrialFail("source moved past")
                    self.mark_head(st, f)
                st.skiphead = False
                ins = f.info.ins[f.pc]
                if ins.opname in SIMPLE:
                    backup = None
                else:
                    backup = st.clone()
                try:
                    self.step(st, f, ins)
                except ForkOn as fk:
                    if self.merging and ins.opname.startswith("POP_JUMP"):
                        res = self.merge(backup, fk.cond)
                        if res is not None:
                            outs += res[0]
                            work += res[1]
                            break
                    res = self.summarise(backup, fk.cond)
                    if res is None:
                        work += self.fork(backup, fk.cond)
                    else:
                        outs += res[0]
                        work += res[1]
                    break
                except PyRaise as e:
                    self.raise_(st, self.mkexc(st, e.cls, e.eargs))
        return outs, arrivals, escapes

    def mark_head(self, st, f):
        """Remember the state at the latest visits of each enclosing loop head."""
        d = len(st.frames)
        same = [h for h in st.heads if h[0] == d and h[1] is f.code and h[2] == f.pc][-2:]
        st.heads = tuple(h for h in st.heads
                         if h[0] < d or h[0] == d and h[1] is f.code and (h[2] != f.pc or h in same))
        snap = st.clone()
        snap.skiphead = True
        st.heads = st.heads + ((d, f.code, f.pc, snap),)

    def fork(self, st, cond):
        if self.verbose:
            self.log(f"  fork {st.frames[-1].code.co_name}:{_line(st.frames[-1])} on {str(cond)[:300]}")
        a, b = st, st.clone()
        a.pc.append(cond)
        b.pc.append(z3.simplify(z3.Not(cond)))
        a.skiphead = b.skiphead = False
        return [s for s in (a, b) if self.feasible(s)]

    # ---------------- exceptions
    def mkexc(self, st, cls, args):
        return st.new(HInst(cls, {"args": Tup([self.lift(st, a) for a in args])}))

    def raise_(self, st, exc):
        """Unwind to the nearest handler."""
        cls = st.get(exc).cls
        while True:
            f = st.frames[-1]
            if len(st.frames) == 1:
                st.ghost["exc"] = exc
                f.stack.clear()
                return
            off = f.info.ins[max(f.pc - 1, 0)].offset
            h = f.info.handler(off)
            if h is not None:
                del f.stack[h.depth:]
                if h.lasti:
                    f.stack.append(off)
                f.stack.append(exc)
                f.pc = f.info.at[h.target]
                return
            st.frames.pop()
            if f.gen is not None:
                g = st.mut(f.gen)
                g.state = "done"
                g.frame = None
                if issubclass(cls, StopIteration):
                    exc = self.mkexc(st, RuntimeError, ("generator raised StopIteration",))
                    cls = RuntimeError
            if f.onret is not None and issubclass(cls, StopIteration):
                if self.deliver_stop(st, f.onret, exc):
                    return

    def deliver_stop(self, st, onret, exc):
        """StopIteration escaped a frame pushed for iteration; True if consumed."""
        kind = onret[0]
        c = st.frames[-1]
        if kind == "foriter":
            c.stack.pop()
            c.pc = onret[1]
            return True
        if kind == "next":
            if onret[1] is not NULL:
                c.stack.append(onret[1])
                return True
            return False
        if kind == "send":
            a = st.get(exc).attrs["args"].items
            c.stack.append(a[0] if a else None)
            c.pc = onret[1]
            return True
        return False

    def deliver(self, st, onret, val):
        """Return value of a finished/yielding frame goes to the frame now on top."""
        c = st.frames[-1]
        if onret is None or onret[0] in ("foriter", "next", "send"):
            c.stack.append(val)
        elif onret[0] == "inst":
            c.stack.append(onret[1])
        elif onret[0] == "discard":
            pass
        elif onret[0] == "truth":
            r = self.truth(st, val)
            if r is CALLED:
                raise Unsupported("nested __bool__")
            self._jump_on(st, c, r)
        elif onret[0] == "notval":
            c.stack.append(not self.truth(st, val))
        elif onret[0] == "boolval":
            c.stack.append(self.truth(st, val))
        elif onret[0] == "iterof":
            c.stack.append(val)
        elif onret[0] == "hook":
            onret[1](st, val)
        else:
            raise Unsupported(f"onret {onret}")

    def _jump_on(self, st, c, r):
        """Finish a pending conditional jump of frame c (the instruction before pc)."""
        ins = c.info.ins[c.pc - 1]
        o = ins.opname
        if o == "POP_JUMP_IF_FALSE":
            if not r:
                c.pc = c.info.at[ins.argval]
        elif o == "POP_JUMP_IF_TRUE":
            if r:
                c.pc = c.info.at[ins.argval]
        elif o == "UNARY_NOT":
            c.stack.append(not r)
        else:
            c.stack.append(r)

    # ---------------- calls
    def interpretable(self, fn):
        mod = getattr(fn, "__module__", None) or ""
        return mod.startswith(self.interp_prefixes) or mod.startswith("contracts") or \
            getattr(fn, "__pyvc__", False)

    def call(self, st, fn, args, kw, onret=None):
        """Call; pushes the result on the current frame (or a new frame)."""
        r = self.call_(st, fn, args, kw, onret)
        if r is not CALLED:
            self.deliver(st, onret, r)

    def call_(self, st, fn, args, kw, onret=None):
        con = self.contracts.get(fn) if _hashable(fn) else None
        if con is not None:
            r = con(self, st, args, kw)
            if r is not NotImplemented:
                return r
        if isinstance(fn, Bound):
            return self.call_(st, fn.fn, [fn.self] + args, kw, onret)
        if isinstance(fn, NativeMethod):
            h = self.models.METHODS.get((fn.pytype, fn.name))
            if h is None:
                for b in fn.pytype.__mro__:
                    h = self.models.METHODS.get((b, fn.name))
                    if h is not None:
                        break
            if h is None:
                return self.native_call(st, getattr(fn.pytype, fn.name), args, kw)
            return h(self, st, args, kw)
        if isinstance(fn, Func):
            return self.enter(st, fn.code, fn.globals, fn.defaults, fn.kwdefaults, fn.closure, args, kw, onret, fn)
        if isinstance(fn, Partial):
            return self.call_(st, fn.fn, list(fn.args) + args, {**fn.kw, **kw}, onret)
        if isinstance(fn, types.MethodType):
            return self.call_(st, fn.__func__, [self.lift(st, fn.__self__)] + args, kw, onret)
        if isinstance(fn, functools.partial):
            return self.call_(st, fn.func, [self.lift(st, a) for a in fn.args] + args,
                              {**{k: self.lift(st, v) for k, v in fn.keywords.items()}, **kw}, onret)
        if isinstance(fn, Ref):
            o = st.heap[fn.id]
            if isinstance(o, HInst):
                c = mro_lookup(o.cls, "__call__")
                if c is not None:
                    return self.call_(st, c, [fn] + args, kw, onret)
            raise Unsupported("call of heap object")
        m = self.models.FUNCS.get(fn) if _hashable(fn) else None
        if m is not None:
            if isinstance(m, types.FunctionType) and m.__module__ == "pyvc.prelude":
                return self.call_(st, m, args, kw, onret)
            return m(self, st, args, kw)
        if isinstance(fn, types.FunctionType):
            if hasattr(fn, "dispatch") and hasattr(fn, "registry") and args:
                impl = fn.dispatch(self.cls_of(st, args[0]))
                return self.call_(st, impl, args, kw, onret)
            if self.interpretable(fn) or (fn.__wrapped__ if hasattr(fn, "__wrapped__") else None) is not None \
                    and self.interpretable(fn.__wrapped__):
                clo = None
                if fn.__closure__:
                    clo = []
                    for c in fn.__closure__:
                        r = st.lifted.get(id(c))
                        if r is None:
                            try:
                                v = self.lift(st, c.cell_contents)
                            except ValueError:
                                v = NULL
                            r = st.new(HCell(v))
                            st.lifted = {**st.lifted, id(c): r}
                        clo.append(r)
                self.interpreted.add(fn.__code__)
                d = tuple(self.lift(st, x) for x in (fn.__defaults__ or ()))
                kd = {k: self.lift(st, x) for k, x in (fn.__kwdefaults__ or {}).items()}
                return self.enter(st, fn.__code__, fn.__globals__, d, kd, clo, args, kw, onret, fn)
            return self.native_call(st, fn, args, kw)
        if isinstance(fn, type):
            return self.instantiate(st, fn, args, kw, onret)
        if hasattr(fn, "__wrapped__") and isinstance(fn, functools._lru_cache_wrapper):
            return self.call_(st, fn.__wrapped__, args, kw, onret)
        if isinstance(fn, (types.BuiltinFunctionType, types.MethodDescriptorType, types.BuiltinMethodType,
                           types.WrapperDescriptorType, types.MethodWrapperType)):
            slf = getattr(fn, "__self__", None)
            if slf is not None and not isinstance(slf, types.ModuleType):
                h = self._method_model(type(slf), fn.__name__)
                if h is not None:
                    return h(self, st, [self.lift(st, slf)] + args, kw)
            oc = getattr(fn, "__objclass__", None)
            if oc is not None:
                h = self._method_model(oc, fn.__name__)
                if h is not None:
                    return h(self, st, args, kw)
            return self.native_call(st, fn, args, kw)
        c = mro_lookup(type(fn), "__call__")
        if isinstance(c, types.FunctionType) and self.interpretable(c):
            return self.call_(st, c, [fn] + args, kw, onret)
        return self.native_call(st, fn, args, kw)

    def _method_model(self, cls, name):
        for b in cls.__mro__:
            h = self.models.METHODS.get((b, name))
            if h is not None:
                return h
        return None

    def native_call(self, st, fn, args, kw):
        """Concrete evaluation of a pure library function."""
        if not self.models.pure(fn):
            raise Unsupported(f"call of {getattr(fn, '__qualname__', fn)!s:.80}")
        try:
            na = [self.native(st, a) for a in args]
            nk = {k: self.native(st, v) for k, v in kw.items()}
        except NotConcrete:
            raise Unsupported(f"symbolic argument to {getattr(fn, '__qualname__', fn)!s:.80}")
        try:
            r = fn(*na, **nk)
        except Exception as e:
            raise PyRaise(type(e), *[a for a in e.args if isinstance(a, CONCRETE)])
        return self.lift_new(st, r)

    def lift_new(self, st, r):
        """Lift a freshly produced native object (fresh heap identity for containers)."""
        if isinstance(r, list):
            return st.new(HList([self.lift_new(st, x) for x in r]))
        if isinstance(r, dict):
            return st.new(HDict([KV(self.lift_new(st, k), self.lift_new(st, v)) for k, v in r.items()], type(r),
                                getattr(r, "default_factory", None)))
        if isinstance(r, (set, frozenset)):
            return st.new(HSet([self.lift_new(st, x) for x in r], type(r)))
        if type(r) is tuple:
            return Tup([self.lift_new(st, x) for x in r])
        return r

    def instantiate(self, st, cls, args, kw, onret=None):
        m = self.models.CLASSES.get(cls)
        if m is not None:
            return m(self, st, args, kw)
        if issubclass(cls, BaseException):
            return st.new(HInst(cls, {"args": Tup(args)}))
        if (cls.__module__ or "").startswith(("castep_outputs", "vcontracts", "pyvc")) and type(cls) is type:
            ref = st.new(HInst(cls))
            init = mro_lookup(cls, "__init__")
            if isinstance(init, types.FunctionType):
                # the instance is delivered when __init__ returns
                if onret is not None:
                    raise Unsupported("instantiate with continuation")
                return self.call_(st, init, [ref] + args, kw, ("inst", ref))
            if args or kw:
                raise PyRaise(TypeError, f"{cls.__name__}() takes no arguments")
            return ref
        if issubclass(cls, dict) and cls.__module__.startswith("castep_outputs"):
            return self.instantiate(st, dict, args, kw)
        import typing
        if typing.is_typeddict(cls):
            return self.instantiate(st, dict, args, kw)
        return self.native_call(st, cls, args, kw)

    def enter(self, st, code, glb, defaults, kwdefaults, closure, args, kw, onret, fn):
        f = Frame(code, glb, closure, fn)
        f.onret = onret
        names = code.co_varnames
        na, npos, nk = code.co_argcount, code.co_posonlyargcount, code.co_kwonlyargcount
        loc = f.loc
        kw = dict(kw)
        pos = list(args)
        if has_seg(pos):
            raise Unsupported("symbolic argument count")
        for n in range(min(na, len(pos))):
            loc[names[n]] = pos[n]
        extra = pos[na:]
        for n in range(na):
            nm = names[n]
            if nm in kw and n >= npos:
                if nm in loc:
                    raise PyRaise(TypeError, f"multiple values for argument {nm!r}")
                loc[nm] = kw.pop(nm)
        if defaults:
            base = na - len(defaults)
            for n, d in enumerate(defaults):
                loc.setdefault(names[base + n], d)
        for n in range(na):
            if names[n] not in loc:
                raise PyRaise(TypeError, f"missing argument {names[n]!r}")
        for n in range(na, na + nk):
            nm = names[n]
            if nm in kw:
                loc[nm] = kw.pop(nm)
            elif kwdefaults and nm in kwdefaults:
                loc[nm] = kwdefaults[nm]
            else:
                raise PyRaise(TypeError, f"missing keyword argument {nm!r}")
        i = na + nk
        if code.co_flags & inspect.CO_VARARGS:
            loc[names[i]] = Tup(extra)
            i += 1
        elif extra:
            raise PyRaise(TypeError, "too many positional arguments")
        if code.co_flags & inspect.CO_VARKEYWORDS:
            loc[names[i]] = st.new(HDict([KV(k, v) for k, v in kw.items()]))
        elif kw:
            raise PyRaise(TypeError, f"unexpected keyword argument {next(iter(kw))!r}")
        st.frames.append(f)
        if len(st.frames) > 120:
            raise Unsupported("recursion depth")
        return CALLED

    # ---------------- attributes
    def getattr_(self, st, v, name):
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, HInst):
                if name == "__class__":
                    return o.cls
                d = mro_lookup(o.cls, name)
                if isinstance(d, property):
                    f = d.fget
                    self.call(st, f, [v], {})
                    return CALLED
                if name in o.attrs:
                    a = o.attrs[name]
                    if isinstance(a, int) and type(a) is int or isinstance(a, SPos):
                        return inst_pos(o, a)
                    return a
                if name == "__dict__":
                    raise Unsupported("__dict__")
                if d is None:
                    h = self.models.INST_ATTR.get((o.cls, name))
                    if h is not None:
                        return h(self, st, v)
                    raise PyRaise(AttributeError, f"{o.cls.__name__!r} object has no attribute {name!r}")
                if isinstance(d, types.FunctionType):
                    return Bound(d, v)
                if isinstance(d, classmethod):
                    return Bound(d.__func__, o.cls)
                if isinstance(d, staticmethod):
                    return d.__func__
                if isinstance(d, functools.singledispatchmethod):
                    return Bound(d, v)
                if isinstance(d, (types.MethodDescriptorType, types.WrapperDescriptorType,
                                  types.GetSetDescriptorType, types.MemberDescriptorType)):
                    h = self.models.INST_ATTR.get((o.cls, name))
                    if h is not None:
                        return h(self, st, v)
                    return Bound(NativeMethod(o.cls, name), v)
                return self.lift(st, d)
            h = self.models.OBJ_ATTR.get((type(o), name))
            if h is not None:
                return h(self, st, v)
            cls = self.cls_of(st, v)
            if name == "__class__":
                return cls
            if self._method_model(cls, name) is not None or hasattr(cls, name):
                return Bound(NativeMethod(cls, name), v)
            raise PyRaise(AttributeError, f"{cls.__name__!r} object has no attribute {name!r}")
        if isinstance(v, SuperProxy):
            o = st.heap[v.self.id] if isinstance(v.self, Ref) else None
            cls = o.cls if o is not None else v.self
            mro = cls.__mro__
            for b in mro[mro.index(v.cls) + 1:]:
                if name in b.__dict__:
                    d = b.__dict__[name]
                    if isinstance(d, types.FunctionType):
                        return Bound(d, v.self)
                    if isinstance(d, classmethod):
                        return Bound(d.__func__, cls)
                    return Bound(NativeMethod(b, name), v.self)
            raise PyRaise(AttributeError, name)
        if isinstance(v, (Sym, Tup, RMatch, SSlice, str, bytes, int, float, complex)) or v is None:
            h = self.models.VAL_ATTR.get((type(v), name))
            if h is not None:
                return h(self, st, v)
            cls = self.cls_of(st, v)
            if name == "__class__":
                return cls
            if not hasattr(cls, name):
                raise PyRaise(AttributeError, f"{cls.__name__!r} object has no attribute {name!r}")
            a = getattr(cls, name)
            if isinstance(v, CONCRETE) and not callable(a):
                return self.lift(st, getattr(v, name))
            return Bound(NativeMethod(cls, name), v)
        if isinstance(v, (Func,)):
            if name == "__name__":
                return v.name
            if name == "__wrapped__" or v.real is not None and hasattr(v.real, name):
                return getattr(v.real, name)
            raise Unsupported(f"function attribute {name}")
        if isinstance(v, (Bound, Partial, NativeMethod, Tell)):
            raise Unsupported(f"attribute {name} of {v}")
        h = self.models.NATIVE_ATTR.get((type(v), name))
        if h is not None:
            return h(self, st, v)
        if isinstance(v, re.Pattern):
            if name in ("pattern", "flags", "groups", "groupindex"):
                r = getattr(v, name)
                return self.lift(st, dict(r)) if name == "groupindex" else r
            return Bound(NativeMethod(re.Pattern, name), v)
        try:
            a = getattr(v, name)
        except AttributeError as e:
            raise PyRaise(AttributeError, *e.args)
        return self.lift(st, a)

    # ---------------- iteration
    def get_iter(self, st, v, onret=None):
        """Iterator value, or CALLED."""
        if isinstance(v, Tup):
            return st.new(HIter(v.items, None, "tuple"))
        if isinstance(v, str):
            return st.new(HIter(tuple(v), None, "str"))
        if isinstance(v, DView):
            o = st.get(v.ref)
            return st.new(HIter(view_chunks(o.entries, v.kind), v.ref.id, "d" + v.kind))
        if isinstance(v, SVal):
            h = self.hooks.get("iter_sval")
            if h:
                return h(self, st, v)
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, (HList, HSet)):
                return st.new(HIter(o.items, v.id, "list"))
            if isinstance(o, HDict):
                return st.new(HIter(view_chunks(o.entries, "keys"), v.id, "dkeys"))
            if isinstance(o, (HIter, HFile, HGen)):
                return v
            if isinstance(o, HInst):
                f = mro_lookup(o.cls, "__iter__")
                if f is None:
                    if mro_lookup(o.cls, "__getitem__") is not None:
                        return self.call_(st, PRELUDE.getitem_iter, [v], {}, onret)
                    raise PyRaise(TypeError, f"{o.cls.__name__!r} object is not iterable")
                return self.call_(st, f, [v], {}, onret)
        if isinstance(v, (type(iter([])),)):
            raise Unsupported("native iterator")
        if isinstance(v, range):
            return st.new(HIter(tuple(v), None, "range"))
        if isinstance(v, (Sym, Func, Bound)):
            if isinstance(v, (SInt, SBool, SFlt)):
                raise PyRaise(TypeError, "object is not iterable")
            raise Unsupported(f"iterate {v!r:.60}")
        try:
            if v is None or isinstance(v, (int, float, complex)):
                raise TypeError("object is not iterable")
            items = [self.lift(st, x) for x in v]
        except TypeError as e:
            raise PyRaise(TypeError, *e.args)
        return st.new(HIter(items, None, "native"))

    def iter_next(self, st, it, onret):
        """value | STOP | CALLED (then delivered per onret)."""
        if not isinstance(it, Ref):
            raise Unsupported(f"next of {it!r:.60}")
        o = st.heap[it.id]
        if isinstance(o, HIter):
            if o.owner is not None:
                self._check_owner(st, o)
            leaf, cur = cur_norm(st, o.chunks, o.cur)
            if leaf is None:
                st.mut(it).cur = cur
                return STOP
            v, seg, k, nxt = cur_read(st, o.chunks, leaf)
            st.mut(it).cur = nxt
            if isinstance(v, KV):
                v = Tup([v.k, v.v])
            if seg is not None and has_frozen(v):
                own = o.owner
                return self._thaw_elem(st, o, v, own, seg, k)
            return thaw(st, v) if has_frozen(v) else v
        if isinstance(o, HFile):
            if o.pycls in (io.BytesIO, io.BufferedReader):
                raise Unsupported("lines of a binary file")
            v = self.models.file_readline(self, st, it)
            return STOP if v == "" else v
        if isinstance(o, HGen):
            return self.resume(st, it, None, onret)
        if isinstance(o, HInst):
            f = mro_lookup(o.cls, "__next__")
            if f is None:
                raise PyRaise(TypeError, f"{o.cls.__name__!r} object is not an iterator")
            return self.call_(st, f, [it], {}, onret)
        h = self.models.OBJ_NEXT.get(type(o))
        if h is not None:
            return h(self, st, it, onret)
        raise Unsupported(f"next of {type(o).__name__}")

    def _thaw_elem(self, st, o, v, own, seg, k):
        if o.kind == "ditems":
            val = thaw_from(st, v.items[1], own, seg, k)
            return Tup([v.items[0], val])
        return thaw_from(st, v, own, seg, k)

    def _check_owner(self, st, o):
        own = st.heap.get(o.owner)
        if own is None:
            return
        if isinstance(own, (HList,)):
            cur = own.items
            snap = o.chunks
            if len(cur) != len(snap) and not has_seg(snap) and not has_seg(cur):
                raise Unsupported("list changed while iterating")
        elif isinstance(own, HDict):
            n1, n2 = chunks_len(own.entries), chunks_len(o.chunks)
            if isinstance(n1, int) and isinstance(n2, int):
                if n1 != n2:
                    raise PyRaise(RuntimeError, "dictionary changed size during iteration")
            elif not same_term(n1, n2):
                raise Unsupported("dict changed while iterating")

    def resume(self, st, gref, val, onret):
        g = st.mut(gref)
        if g.state == "done":
            return STOP
        if g.state == "run":
            raise PyRaise(ValueError, "generator already executing")
        f = g.frame.clone()
        if g.state == "susp":
            f.stack.append(val)
        else:
            f.stack.append(None)
        g.state = "run"
        g.frame = None
        f.onret = onret
        f.gen = gref
        st.frames.append(f)
        return CALLED

    # ---------------- one instruction
    def step(self, st, f, ins):
        f.pc += 1
        getattr(self, "op_" + ins.opname, self.op_missing)(st, f, ins)

    def op_missing(self, st, f, ins):
        raise Unsupported(f"opcode {ins.opname}")

    def op_RESUME(self, st, f, ins):
        pass

    op_NOP = op_CACHE = op_PRECALL = op_RESUME

    def op_POP_TOP(self, st, f, ins):
        f.stack.pop()

    def op_END_FOR(self, st, f, ins):
        f.stack.pop()
        f.stack.pop()

    def op_END_SEND(self, st, f, ins):
        del f.stack[-2]

    def op_PUSH_NULL(self, st, f, ins):
        f.stack.append(NULL)

    def op_COPY(self, st, f, ins):
        f.stack.append(f.stack[-ins.arg])

    def op_SWAP(self, st, f, ins):
        s = f.stack
        s[-1], s[-ins.arg] = s[-ins.arg], s[-1]

    def op_LOAD_CONST(self, st, f, ins):
        v = f.code.co_consts[ins.arg]
        f.stack.append(self.const(st, v))

    def const(self, st, v):
        if type(v) is tuple:
            return Tup([self.const(st, x) for x in v])
        if isinstance(v, frozenset):
            return st.new(HSet(sorted(v, key=repr), frozenset))
        return v

    def op_RETURN_CONST(self, st, f, ins):
        f.stack.append(self.const(st, f.code.co_consts[ins.arg]))
        self.op_RETURN_VALUE(st, f, ins)

    def op_RETURN_VALUE(self, st, f, ins):
        v = f.stack.pop()
        st.frames.pop()
        if f.gen is not None:
            g = st.mut(f.gen)
            g.state = "done"
            g.frame = None
            exc = self.mkexc(st, StopIteration, ())
            if v is not None:
                st.mut(exc).attrs["args"] = Tup([v])
                st.mut(exc).attrs["value"] = v
            if f.onret is not None and self.deliver_stop(st, f.onret, exc):
                return
            self.raise_(st, exc)
            return
        h = self.hooks.get("ret")
        if h:
            h(self, st, f, v)
        self.deliver(st, f.onret, v)

    def op_LOAD_FAST(self, st, f, ins):
        v = f.loc.get(ins.argval, NULL)
        f.stack.append(v)

    def op_LOAD_FAST_CHECK(self, st, f, ins):
        v = f.loc.get(ins.argval, NULL)
        if v is NULL:
            raise PyRaise(UnboundLocalError, f"cannot access local variable {ins.argval!r}")
        f.stack.append(v)

    def op_LOAD_FAST_AND_CLEAR(self, st, f, ins):
        f.stack.append(f.loc.pop(ins.argval, NULL))

    def op_STORE_FAST(self, st, f, ins):
        v = f.stack.pop()
        if v is NULL:
            f.loc.pop(ins.argval, None)
        else:
            f.loc[ins.argval] = v

    def op_DELETE_FAST(self, st, f, ins):
        if f.loc.pop(ins.argval, NULL) is NULL:
            raise PyRaise(UnboundLocalError, ins.argval)

    def op_MAKE_CELL(self, st, f, ins):
        v = f.loc.get(ins.argval, NULL)
        f.loc[ins.argval] = st.new(HCell(v))

    def op_COPY_FREE_VARS(self, st, f, ins):
        for n, nm in enumerate(f.code.co_freevars):
            f.loc[nm] = f.closure[n]

    def op_LOAD_CLOSURE(self, st, f, ins):
        f.stack.append(f.loc[ins.argval])

    def op_LOAD_DEREF(self, st, f, ins):
        v = st.get(f.loc[ins.argval]).v
        if v is NULL:
            raise PyRaise(NameError, ins.argval)
        f.stack.append(v)

    def op_STORE_DEREF(self, st, f, ins):
        v = f.stack.pop()
        st.mut(f.loc[ins.argval]).v = v

    def op_LOAD_GLOBAL(self, st, f, ins):
        nm = ins.argval
        if ins.arg & 1:
            f.stack.append(NULL)
        f.stack.append(self.load_global(st, f, nm))

    def load_global(self, st, f, nm):
        if nm in f.globals:
            return self.lift(st, f.globals[nm])
        if hasattr(_bi, nm):
            return getattr(_bi, nm)
        raise PyRaise(NameError, f"name {nm!r} is not defined")

    def op_LOAD_NAME(self, st, f, ins):
        if ins.argval in f.loc:
            f.stack.append(f.loc[ins.argval])
        else:
            f.stack.append(self.load_global(st, f, ins.argval))

    def op_STORE_GLOBAL(self, st, f, ins):
        raise Unsupported("global assignment")

    def op_LOAD_ATTR(self, st, f, ins):
        v = f.stack.pop()
        meth = ins.arg & 1
        if meth:
            f.stack.append(NULL)
        a = self.getattr_(st, v, ins.argval)
        if a is not CALLED:
            f.stack.append(a)

    def op_LOAD_SUPER_ATTR(self, st, f, ins):
        slf = f.stack.pop()
        cls = f.stack.pop()
        f.stack.pop()
        if ins.arg & 1:
            f.stack.append(NULL)
        a = self.getattr_(st, SuperProxy(cls, slf), ins.argval)
        if a is not CALLED:
            f.stack.append(a)

    def op_STORE_ATTR(self, st, f, ins):
        o = f.stack.pop()
        v = f.stack.pop()
        self.setattr_(st, o, ins.argval, v)

    def setattr_(self, st, o, name, v):
        if isinstance(o, Ref) and isinstance(st.heap[o.id], HInst):
            d = mro_lookup(st.heap[o.id].cls, name)
            if isinstance(d, property):
                if d.fset is None:
                    raise PyRaise(AttributeError, f"property {name!r} has no setter")
                self.call(st, d.fset, [o, v], {}, onret=("discard",))
                return
            st.mut(o).attrs[name] = v
        elif isinstance(o, Func):
            raise Unsupported("setattr on function")
        else:
            raise Unsupported(f"setattr on {o!r:.50}")

    def op_DELETE_ATTR(self, st, f, ins):
        o = f.stack.pop()
        del st.mut(o).attrs[ins.argval]

    def op_BUILD_TUPLE(self, st, f, ins):
        f.stack.append(Tup(self.popn(f, ins.arg)))

    def popn(self, f, n):
        if n == 0:
            return []
        r = f.stack[-n:]
        del f.stack[-n:]
        return r

    def op_BUILD_LIST(self, st, f, ins):
        f.stack.append(st.new(HList(self.popn(f, ins.arg))))

    def op_BUILD_SET(self, st, f, ins):
        items = self.popn(f, ins.arg)
        r = st.new(HSet([]))
        for x in items:
            self.models.set_add(self, st, r, x)
        f.stack.append(r)

    def op_BUILD_MAP(self, st, f, ins):
        vs = self.popn(f, 2 * ins.arg)
        r = st.new(HDict([]))
        for n in range(ins.arg):
            self.models.dict_set(self, st, r, vs[2 * n], vs[2 * n + 1])
        f.stack.append(r)

    def op_BUILD_CONST_KEY_MAP(self, st, f, ins):
        keys = f.stack.pop().items
        vs = self.popn(f, ins.arg)
        r = st.new(HDict([]))
        for k, v in zip(keys, vs):
            self.models.dict_set(self, st, r, k, v)
        f.stack.append(r)

    def op_BUILD_SLICE(self, st, f, ins):
        a = self.popn(f, ins.arg)
        f.stack.append(SSlice(a[0], a[1], a[2] if len(a) > 2 else None))

    def op_LIST_APPEND(self, st, f, ins):
        v = f.stack.pop()
        st.mut(f.stack[-ins.arg]).items.append(v)

    def op_SET_ADD(self, st, f, ins):
        v = f.stack.pop()
        self.models.set_add(self, st, f.stack[-ins.arg], v)

    def op_MAP_ADD(self, st, f, ins):
        v = f.stack.pop()
        k = f.stack.pop()
        self.models.dict_set(self, st, f.stack[-ins.arg], k, v)

    def op_LIST_EXTEND(self, st, f, ins):
        v = f.stack.pop()
        self.models.list_extend(self, st, f.stack[-ins.arg], v)

    def op_SET_UPDATE(self, st, f, ins):
        v = f.stack.pop()
        for x in self.models.concrete_items(self, st, v):
            self.models.set_add(self, st, f.stack[-ins.arg], x)

    def op_DICT_UPDATE(self, st, f, ins):
        v = f.stack.pop()
        self.models.dict_update(self, st, f.stack[-ins.arg], v)

    op_DICT_MERGE = op_DICT_UPDATE

    def op_UNPACK_SEQUENCE(self, st, f, ins):
        v = f.stack.pop()
        items = self.models.seq_items(self, st, v)
        if items is None:
            # arbitrary iterator: collect through the prelude
            f.stack.append(NULL)  # placeholder removed by hook
            n = ins.arg

            def done(s2, val):
                c = s2.frames[-1]
                c.stack.pop()
                its = self.models.seq_items(self, s2, val)
                self._unpack(s2, c, its, n)
            self.call(st, PRELUDE.tuple_, [v], {}, onret=("hook", done))
            return
        self._unpack(st, f, items, ins.arg)

    def _unpack(self, st, f, items, n):
        if has_seg(items):
            ln = chunks_len(items)
            if not self.decide(st, zint(ln) == n):
                raise PyRaise(ValueError, "unpack: wrong number of values")
            items = self.models.expand(self, st, items, n)
        if len(items) != n:
            raise PyRaise(ValueError, "not enough values to unpack" if len(items) < n else "too many values to unpack")
        for x in reversed(items):
            f.stack.append(x)

    def op_UNPACK_EX(self, st, f, ins):
        v = f.stack.pop()
        items = self.models.seq_items(self, st, v)
        if items is None:
            f.stack.append(NULL)
            arg = ins.arg

            def done(s2, val):
                c = s2.frames[-1]
                c.stack.pop()
                self._unpack_ex(s2, c, self.models.seq_items(self, s2, val), arg)
            self.call(st, PRELUDE.tuple_, [v], {}, onret=("hook", done))
            return
        self._unpack_ex(st, f, items, ins.arg)

    def _unpack_ex(self, st, f, items, arg):
        before, after = arg & 0xFF, arg >> 8
        items = list(items)
        ln = chunks_len(items)
        if not self.decide(st, zint(ln) >= before + after) if not isinstance(ln, int) else ln < before + after:
            raise PyRaise(ValueError, "not enough values to unpack")
        head, items = self.models.take_front(self, st, items, before)
        mid, tail = self.models.take_back(self, st, items, after)
        for x in reversed(tail):
            f.stack.append(x)
        f.stack.append(st.new(HList(mid)))
        for x in reversed(head):
            f.stack.append(x)

    # ---- operators
    def op_UNARY_NOT(self, st, f, ins):
        v = f.stack.pop()
        if isinstance(v, SBool):
            f.stack.append(SBool(z3.simplify(z3.Not(v.t))))
            return
        r = self.truth(st, v)
        if r is CALLED:
            return
        f.stack.append(not r)

    def op_UNARY_NEGATIVE(self, st, f, ins):
        v = f.stack.pop()
        if isinstance(v, SInt):
            f.stack.append(simp_int(-v.t))
        elif isinstance(v, SFlt):
            f.stack.append(SFlt(z3.Function("FNEG", FltS, FltS)(v.t)))
        else:
            f.stack.append(-v)

    def op_UNARY_INVERT(self, st, f, ins):
        f.stack.append(~f.stack.pop())

    def op_BINARY_OP(self, st, f, ins):
        b = f.stack.pop()
        a = f.stack.pop()
        r = self.models.binop(self, st, ins.argrepr, a, b)
        if r is not CALLED:
            f.stack.append(r)

    def op_COMPARE_OP(self, st, f, ins):
        b = f.stack.pop()
        a = f.stack.pop()
        f.stack.append(self.models.compare(self, st, ins.argval, a, b))

    def op_IS_OP(self, st, f, ins):
        b = f.stack.pop()
        a = f.stack.pop()
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id != b.id and \
                any(getattr(st.heap.get(x.id), "ro", False) for x in (a, b)):
            raise Unsupported("identity of an element with internal sharing")
        r = self.is_(a, b)
        f.stack.append(r != bool(ins.arg))

    def is_(self, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        if isinstance(a, SVal) or isinstance(b, SVal):
            x = a if isinstance(a, SVal) else b
            y = b if x is a else a
            if y is None and x.pytype is not None and x.pytype is not type(None):
                return False
            if isinstance(y, SVal) and y.t.eq(x.t):
                return True
            raise Unsupported("identity of unknown value")
        if isinstance(a, SBool) or isinstance(b, SBool):
            if isinstance(a, SBool) and isinstance(b, bool):
                raise Unsupported("identity of bool")
            if a is None or b is None:
                return False
        return a is b

    def op_CONTAINS_OP(self, st, f, ins):
        c = f.stack.pop()
        x = f.stack.pop()
        r = self.models.contains(self, st, c, x)
        if r is CALLED:
            # delivered as value by the callee; apply inversion through a hook
            if ins.arg:
                st.frames[-1].onret = ("notval",)
            else:
                st.frames[-1].onret = ("boolval",)
            return
        if isinstance(r, bool):
            f.stack.append(r != bool(ins.arg))
        else:
            t = r.t
            f.stack.append(SBool(z3.Not(t) if ins.arg else t))

    def op_BINARY_SUBSCR(self, st, f, ins):
        k = f.stack.pop()
        o = f.stack.pop()
        r = self.models.getitem(self, st, o, k)
        if r is not CALLED:
            f.stack.append(r)

    def op_BINARY_SLICE(self, st, f, ins):
        b = f.stack.pop()
        a = f.stack.pop()
        o = f.stack.pop()
        r = self.models.getitem(self, st, o, SSlice(a, b, None))
        if r is not CALLED:
            f.stack.append(r)

    def op_STORE_SUBSCR(self, st, f, ins):
        k = f.stack.pop()
        o = f.stack.pop()
        v = f.stack.pop()
        self.models.setitem(self, st, o, k, v)

    def op_STORE_SLICE(self, st, f, ins):
        raise Unsupported("slice assignment")

    def op_DELETE_SUBSCR(self, st, f, ins):
        k = f.stack.pop()
        o = f.stack.pop()
        self.models.delitem(self, st, o, k)

    # ---- control flow
    def op_POP_JUMP_IF_FALSE(self, st, f, ins):
        v = f.stack.pop()
        r = self.truth(st, v)
        if r is CALLED:
            return
        if not r:
            f.pc = f.info.at[ins.argval]

    def op_POP_JUMP_IF_TRUE(self, st, f, ins):
        v = f.stack.pop()
        r = self.truth(st, v)
        if r is CALLED:
            return
        if r:
            f.pc = f.info.at[ins.argval]

    def op_POP_JUMP_IF_NONE(self, st, f, ins):
        v = f.stack.pop()
        if self.is_(v, None):
            f.pc = f.info.at[ins.argval]

    def op_POP_JUMP_IF_NOT_NONE(self, st, f, ins):
        v = f.stack.pop()
        if not self.is_(v, None):
            f.pc = f.info.at[ins.argval]

    def op_JUMP_FORWARD(self, st, f, ins):
        f.pc = f.info.at[ins.argval]

    op_JUMP_BACKWARD = op_JUMP_BACKWARD_NO_INTERRUPT = op_JUMP_FORWARD

    def op_GET_ITER(self, st, f, ins):
        v = f.stack.pop()
        r = self.get_iter(st, v)
        if r is not CALLED:
            f.stack.append(r)

    op_GET_YIELD_FROM_ITER = op_GET_ITER

    def exit_for(self, f, ins):
        t = f.info.at[ins.argval]
        # skip END_FOR
        return t + 1

    def op_FOR_ITER(self, st, f, ins):
        it = f.stack[-1]
        ex = self.exit_for(f, ins)
        r = self.iter_next(st, it, ("foriter", ex))
        if r is CALLED:
            return
        if r is STOP:
            f.stack.pop()
            f.pc = ex
        else:
            f.stack.append(r)

    def op_SEND(self, st, f, ins):
        v = f.stack.pop()
        it = f.stack[-1]
        tgt = f.info.at[ins.argval]
        o = st.heap[it.id]
        if isinstance(o, HGen):
            r = self.resume(st, it, v, ("send", tgt))
        else:
            r = self.iter_next(st, it, ("send", tgt))
        if r is CALLED:
            return
        if r is STOP:
            f.stack.append(None)
            f.pc = tgt
        else:
            f.stack.append(r)

    def op_YIELD_VALUE(self, st, f, ins):
        v = f.stack.pop()
        st.frames.pop()
        g = st.mut(f.gen)
        g.state = "susp"
        onret = f.onret
        f.onret = None
        g.frame = f
        self.deliver(st, onret, v)

    def op_RETURN_GENERATOR(self, st, f, ins):
        st.frames.pop()
        onret = f.onret
        f.onret = None
        ref = st.new(HGen(f))
        f.gen = ref
        self.deliver(st, onret, ref)

    # ---- exceptions
    def op_PUSH_EXC_INFO(self, st, f, ins):
        e = f.stack.pop()
        f.stack.append(st.exc[-1] if st.exc else None)
        st.exc.append(e)
        f.stack.append(e)

    def op_POP_EXCEPT(self, st, f, ins):
        f.stack.pop()
        if st.exc:
            st.exc.pop()

    def op_CHECK_EXC_MATCH(self, st, f, ins):
        t = f.stack.pop()
        e = f.stack[-1]
        if isinstance(t, Tup):
            t = tuple(t.items)
        f.stack.append(issubclass(st.get(e).cls, t))

    def op_RERAISE(self, st, f, ins):
        e = f.stack.pop()
        self.raise_(st, e)

    def op_RAISE_VARARGS(self, st, f, ins):
        if ins.arg == 0:
            if not st.exc:
                raise PyRaise(RuntimeError, "No active exception to reraise")
            self.raise_(st, st.exc[-1])
            return
        if ins.arg == 2:
            f.stack.pop()
        e = f.stack.pop()
        if isinstance(e, type):
            e = st.new(HInst(e, {"args": Tup([])}))
        if not isinstance(e, Ref):
            raise Unsupported("raise of native exception")
        self.raise_(st, e)

    def op_LOAD_ASSERTION_ERROR(self, st, f, ins):
        f.stack.append(AssertionError)

    def op_BEFORE_WITH(self, st, f, ins):
        m = f.stack.pop()
        ex = self.getattr_(st, m, "__exit__")
        en = self.getattr_(st, m, "__enter__")
        f.stack.append(ex)
        self.call(st, en, [], {})

    def op_WITH_EXCEPT_START(self, st, f, ins):
        e = f.stack[-1]
        ex = f.stack[-4]
        self.call(st, ex, [st.get(e).cls, e, None], {})

    def op_CLEANUP_THROW(self, st, f, ins):
        raise Unsupported("generator throw")

    # ---- calls
    def op_KW_NAMES(self, st, f, ins):
        f.kwnames = f.code.co_consts[ins.arg]

    def op_CALL(self, st, f, ins):
        args = self.popn(f, ins.arg)
        b = f.stack.pop()
        a = f.stack.pop()
        kwn = f.kwnames
        f.kwnames = ()
        kw = {}
        if kwn:
            kw = dict(zip(kwn, args[-len(kwn):]))
            args = args[:-len(kwn)]
        if a is NULL:
            self.call(st, b, args, kw)
        else:
            self.call(st, a, [b] + args, kw)

    def op_CALL_FUNCTION_EX(self, st, f, ins):
        kw = {}
        if ins.arg & 1:
            k = f.stack.pop()
            for e in self.models.dict_concrete(self, st, k):
                kw[e.k] = e.v
        a = f.stack.pop()
        fn = f.stack.pop()
        f.stack.pop()
        items = self.models.seq_items(self, st, a)
        if items is None:
            def done(s2, val):
                self.call(s2, fn, list(self.models.seq_items(self, s2, val)), kw)
            self.call(st, PRELUDE.tuple_, [a], {}, onret=("hook", done))
            return
        self.call(st, fn, list(items), kw)

    def op_CALL_INTRINSIC_1(self, st, f, ins):
        v = f.stack.pop()
        if ins.arg == 6:      # LIST_TO_TUPLE
            f.stack.append(Tup(st.get(v).items))
        elif ins.arg == 3:    # STOPITERATION_ERROR
            if issubclass(st.get(v).cls, StopIteration):
                v = self.mkexc(st, RuntimeError, ("generator raised StopIteration",))
            f.stack.append(v)
        elif ins.arg == 5:
            f.stack.append(v)
        else:
            raise Unsupported(f"intrinsic {ins.arg}")

    def op_MAKE_FUNCTION(self, st, f, ins):
        code = f.stack.pop()
        closure = defaults = kwd = None
        if ins.arg & 8:
            closure = list(f.stack.pop().items)
        if ins.arg & 4:
            f.stack.pop()
        if ins.arg & 2:
            kwd = {e.k: e.v for e in st.get(f.stack.pop()).entries}
        if ins.arg & 1:
            defaults = f.stack.pop().items
        f.stack.append(Func(code, f.globals, defaults, kwd, closure, code.co_name))

    # ---- strings
    def op_FORMAT_VALUE(self, st, f, ins):
        spec = f.stack.pop() if ins.arg & 4 else ""
        v = f.stack.pop()
        f.stack.append(self.models.format_value(self, st, v, ins.arg & 3, spec))

    def op_BUILD_STRING(self, st, f, ins):
        parts = self.popn(f, ins.arg)
        ps = []
        for p in parts:
            if isinstance(p, JoinStr):
                p = self.models.opaque_text()
            ps += pieces_of(p)
        f.stack.append(mkstr(ps))

    # ---- imports & matching
    def op_IMPORT_NAME(self, st, f, ins):
        fromlist = f.stack.pop()
        level = f.stack.pop()
        fl = self.native(st, fromlist)
        f.stack.append(__import__(ins.argval, f.globals, None, fl or (), level))

    def op_IMPORT_FROM(self, st, f, ins):
        f.stack.append(self.lift(st, getattr(f.stack[-1], ins.argval)))

    def op_GET_LEN(self, st, f, ins):
        f.stack.append(self.models.len_(self, st, f.stack[-1]))

    def op_MATCH_SEQUENCE(self, st, f, ins):
        v = f.stack[-1]
        c = self.cls_of(st, v)
        f.stack.append(issubclass(c, collections.abc.Sequence) and not issubclass(c, (str, bytes, bytearray)))

    def op_MATCH_MAPPING(self, st, f, ins):
        f.stack.append(issubclass(self.cls_of(st, f.stack[-1]), collections.abc.Mapping))

    def op_MATCH_KEYS(self, st, f, ins):
        keys = f.stack[-1].items
        subj = f.stack[-2]
        out = []
        for k in keys:
            r = self.models.dict_find(self, st, subj, k)
            if r is None:
                f.stack.append(None)
                return
            out.append(r)
        f.stack.append(Tup(out))

    def op_MATCH_CLASS(self, st, f, ins):
        names = f.stack.pop().items
        cls = f.stack.pop()
        subj = f.stack.pop()
        if not self.models.isinstance_(self, st, subj, cls):
            f.stack.append(None)
            return
        out = []
        n = ins.arg
        if n:
            if cls in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple) and n == 1:
                out.append(subj)
            else:
                ma = getattr(cls, "__match_args__", ())
                for k in range(n):
                    a = self.getattr_(st, subj, ma[k])
                    if a is CALLED:
                        raise Unsupported("match on property")
                    out.append(a)
        for nm in names:
            try:
                a = self.getattr_(st, subj, nm)
            except PyRaise as e:
                if e.cls is AttributeError:
                    f.stack.append(None)
                    return
                raise
            if a is CALLED:
                raise Unsupported("match on property")
            out.append(a)
        f.stack.append(Tup(out))

    def op_LOAD_BUILD_CLASS(self, st, f, ins):
        raise Unsupported("class creation")

    # ---------------- summaries: see summ.py
    def summarise(self, st, cond):
        from . import summ
        return summ.summarise(self, st, cond)


class NotConcrete(Exception):
    pass


class TrialFail(Exception):
    pass


def _idle():
    return None


def _line(f):
    for n in range(f.pc, -1, -1):
        p = f.info.ins[n].positions
        if p is not None and p.lineno:
            return p.lineno
    return 0


def _hashable(x):
    return not isinstance(x, (Bound, Func, Ref, Partial, NativeMethod, Sym))


def mro_lookup(cls, name):
    for b in cls.__mro__:
        if name in b.__dict__:
            if b is object and name in ("__init__", "__eq__", "__ne__", "__str__", "__repr__", "__hash__"):
                return None
            return b.__dict__[name]
    return None


def view_chunks(entries, kind):
    def conv(c):
        if isinstance(c, Seg):
            return Seg(c.var, c.lo, c.hi, [conv(x) for x in c.body], c.facts)
        if kind == "keys":
            return c.k
        if kind == "values":
            return c.v
        return c
    return tuple(conv(c) for c in entries)


def zflt(x):
    if isinstance(x, SFlt):
        return x.t
    if isinstance(x, SInt):
        return strs.FLTI(x.t)
    if isinstance(x, bool) or isinstance(x, int):
        return strs.FLTI(z3.IntVal(int(x)))
    if isinstance(x, float):
        if x == int(x) if abs(x) < 1e15 else False:
            return strs.FLTI(z3.IntVal(int(x)))
        return strs.FLT(z3.StringVal(repr(x)))
    raise Unsupported("zflt")


def match_template(tpl, v, var):
    """Index term i with tpl[var:=i] == v structurally, or None."""
    m = match_family(tpl, v, var, ())
    return None if m is None else m[0]


def match_family(tpl, v, var, outer):
    """(index term, outer index terms) with tpl[var, outer := ...] == v structurally, or None."""
    found = []
    of = {}

    def term(t, u):
        if t.eq(var):
            found.append(u)
            return True
        for n, o in enumerate(outer):
            if t.eq(o):
                if n in of and not same_term(of[n], u):
                    return False
                of[n] = u
                return True
        if t.eq(u):
            return True
        if t.sort() == IntS and u.sort() == IntS and var_occurs(t, var):
            # linear offset: t = var + c
            c = z3.simplify(t - var)
            if not var_occurs(c, var):
                found.append(z3.simplify(u - c))
                return True
        if z3.is_app(t) and z3.is_app(u) and t.decl().eq(u.decl()) and t.num_args() == u.num_args() and t.num_args():
            return all(term(a, b) for a, b in zip(t.children(), u.children()))
        return False

    def go(t, u):
        if isinstance(t, SStr) and isinstance(u, SStr):
            return len(t.pieces) == len(u.pieces) and all(
                (a == b) if isinstance(a, str) or isinstance(b, str) else term(a.t, b.t)
                for a, b in zip(t.pieces, u.pieces))
        if isinstance(t, Tup) and isinstance(u, Tup):
            return len(t.items) == len(u.items) and all(go(a, b) for a, b in zip(t.items, u.items))
        if isinstance(t, SInt) and isinstance(u, (SInt, int)):
            return term(t.t, zint(u))
        if isinstance(t, SFlt) and isinstance(u, SFlt):
            return term(t.t, u.t)
        if isinstance(t, SVal) and isinstance(u, SVal):
            return term(t.t, u.t)
        if isinstance(t, CONCRETE) and isinstance(u, CONCRETE):
            return type(t) is type(u) and t == u
        return False
    try:
        if not go(tpl, v) or not found:
            return None
    except z3.Z3Exception:
        return None
    f0 = found[0]
    for x in found[1:]:
        if not z3.is_true(z3.simplify(f0 == x)):
            return None
    if len(of) != len(outer):
        return None
    return f0, [of[n] for n in range(len(outer))]


def var_occurs(t, var):
    if t.eq(var):
        return True
    return any(var_occurs(c, var) for c in t.children())


SIMPLE = {"RESUME", "NOP", "POP_TOP", "PUSH_NULL", "COPY", "SWAP", "LOAD_CONST", "LOAD_FAST", "STORE_FAST",
          "LOAD_GLOBAL", "BUILD_TUPLE", "BUILD_LIST", "KW_NAMES", "JUMP_FORWARD", "JUMP_BACKWARD", "LOAD_FAST_CHECK",
          "LOAD_FAST_AND_CLEAR", "LIST_APPEND", "LOAD_DEREF", "STORE_DEREF", "LOAD_CLOSURE", "COPY_FREE_VARS",
          "MAKE_CELL", "RETURN_GENERATOR", "END_FOR", "MAKE_FUNCTION", "BUILD_SLICE", "POP_EXCEPT", "PUSH_EXC_INFO",
          "CHECK_EXC_MATCH", "IS_OP"}
