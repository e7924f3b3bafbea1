"""Loop summarisation: inductive invariants found by anti-unification and proved by one symbolic round.

At a loop head whose input source stands at an undecided boundary of a repeated part, two concrete rounds
are executed, generalised to a state template T(K), and the obligation "one round from T(K) ends in T(K+1)"
is discharged by executing the loop body once from T(K).  Nothing is assumed: when the template does not
fit, the loop is not summarised and the verdict is undecided.
"""
from __future__ import annotations
import copy
import re
import z3

from . import machine as mc
from . import strs
from .machine import (CALLED, CodeInfo, Frame, State, TrialFail, cur_boundary, freeze, same_term, DView, SuperProxy)
from .values import *
from .models import INTLEX, SymRange

LIMIT_STEPS = 60000

# values that may hold references to heap objects: identity of the value says nothing about the objects
HOLDERS = (Ref, Tup, KV, Bound, Partial, DView, Func, SuperProxy, Tell, SSlice, RMatch)


class Fail(Exception):
    """No template."""


class Mismatch(Exception):
    pass


class NotHere(Exception):
    """The loop does not consume the source at this head."""


# ------------------------------------------------------------------------------------------------ loops
def loop_body(info, head):
    cache = getattr(info, "_loops", None)
    if cache is None:
        cache = info._loops = {}
        preds = {}
        for n in range(len(info.ins)):
            for s in info.succ(n):
                preds.setdefault(s, set()).add(n)
        info._preds = preds
    r = cache.get(head)
    if r is None:
        latches = [n for n, i in enumerate(info.ins) if i.opname == "JUMP_BACKWARD" and info.at[i.argval] == head]
        body = {head}
        work = list(latches)
        while work:
            n = work.pop()
            if n in body:
                continue
            body.add(n)
            work += info._preds.get(n, ())
        r = cache[head] = body
    return r


# ------------------------------------------------------------------------------------------------ reachability
def roots(st):
    for f in st.frames:
        live = f.info.live_at(f.pc) if f.pc < len(f.info.ins) else ()
        for nm in live:
            v = f.loc.get(nm, NULL)
            if v is not NULL:
                yield v
        yield from f.stack
        if f.gen is not None:
            yield f.gen
        if f.onret is not None:
            for x in f.onret:
                yield x
        if f.closure:
            yield from f.closure
    yield from st.exc
    yield from st.lifted.values()
    for v in st.ghost.values():
        if isinstance(v, Ref):
            yield v


def children(o):
    if isinstance(o, (HList, HSet)):
        return o.items
    if isinstance(o, HDict):
        return o.entries
    if isinstance(o, HInst):
        return list(o.attrs.values())
    if isinstance(o, HCell):
        return [o.v]
    if isinstance(o, HGen):
        f = o.frame
        if f is None:
            return []
        live = f.info.live_at(f.pc)
        return [f.loc[n] for n in live if n in f.loc] + list(f.stack) + list(f.closure or ())
    if isinstance(o, HIter):
        return [Ref(o.owner)] if o.owner is not None else []
    if hasattr(o, "children"):
        return o.children()
    return []


def refs_in(v, out):
    if isinstance(v, Ref):
        out.append(v.id)
    elif isinstance(v, Tup):
        for x in v.items:
            refs_in(x, out)
    elif isinstance(v, KV):
        refs_in(v.k, out)
        refs_in(v.v, out)
    elif isinstance(v, Bound):
        refs_in(v.self, out)
        refs_in(v.fn, out)
    elif isinstance(v, Partial):
        refs_in(v.fn, out)
        for x in v.args:
            refs_in(x, out)
        for x in v.kw.values():
            refs_in(x, out)
    elif isinstance(v, Func):
        for x in v.closure or ():
            refs_in(x, out)
        for x in v.defaults or ():
            refs_in(x, out)
    elif isinstance(v, DView):
        out.append(v.ref.id)
    elif isinstance(v, SuperProxy):
        refs_in(v.self, out)
    elif isinstance(v, Tell):
        out.append(v.fid)
    elif isinstance(v, Seg):
        pass
    elif hasattr(v, "alts"):
        for _, x in v.alts:
            refs_in(x, out)


def reach(st, count=None):
    seen = {}
    work = []
    for v in roots(st):
        refs_in(v, work)
    cnt = {}
    order = []
    for i in work:
        cnt[i] = cnt.get(i, 0) + 1
    while work:
        i = work.pop()
        if i in seen or i not in st.heap:
            continue
        seen[i] = True
        order.append(i)
        sub = []
        o = st.heap[i]
        for c in children(o):
            refs_in(c, sub)
        for j in sub:
            if isinstance(o, HIter) and j == o.owner:
                cnt[j] = cnt.get(j, 0)      # iterators do not count as owners
            else:
                cnt[j] = cnt.get(j, 0) + 1
            work.append(j)
    return order, cnt


def dead_cells(st, cnt):
    """Cells held by one frame only whose content is overwritten before it is read."""
    out = set()
    for f in st.frames:
        if not f.code.co_cellvars or f.pc >= len(f.info.ins):
            continue
        live, held = f.info.content_live_at(f.pc), f.info.live_at(f.pc)
        for nm in f.code.co_cellvars:
            v = f.loc.get(nm)
            if isinstance(v, Ref) and nm not in live and nm in held and cnt.get(v.id, 0) == 1 and isinstance(st.heap.get(v.id), HCell):
                out.add(v.id)
    return out


def gc(st):
    order, _ = reach(st)
    keep = set(order)
    for i in list(st.heap):
        if i not in keep:
            # origins may refer to owners by id: owners are reachable if they matter
            del st.heap[i]
            st.owned.discard(i)


# ------------------------------------------------------------------------------------------------ sources
def lift(st, top, cur, depth):
    """The boundary of the given depth that cur also stands at (nothing before it in that round), or None."""
    if len(cur) < depth:
        return None
    while True:
        i = cur[-1][0]
        cs = mc.cur_chunks(top, cur)
        if i > len(cs):
            return None
        for c in cs[:i]:
            if not isinstance(c, Seg):
                return None
            pairs = [(s.var, zint(k)) for s, k in mc.cur_subst(top, cur)]
            lo, hi = subst_bound(c.lo, pairs), subst_bound(c.hi, pairs)
            if not (same_term(lo, hi) or mc.M().prove(st, zint(lo) >= zint(hi))):
                return None
        if len(cur) == depth:
            return cur[:-1] + ((0, None),)
        i, k = cur[-2]
        if not same_term(k, mc.cur_seg(top, cur, len(cur) - 2).lo):
            return None
        cur = cur[:-2] + ((i, None),)


class CurSource:
    """An iterator or text file positioned in a chunk list (at a repetition of the given depth, default innermost).

    With a shift j the boundaries are those after chunk j - 1 of each repetition; index k then means that
    repetition k - 1 has been entered and repetition k comes next."""
    __slots__ = ("id", "depth", "shift")

    def __init__(self, id, depth=None, shift=0):
        self.id, self.depth, self.shift = id, depth, shift

    def key(self):
        return ("cur", self.id, self.shift) if self.shift else ("cur", self.id)

    def place(self, st):
        o = st.heap.get(self.id)
        if o is None:
            return None, None
        return o.chunks, cur_boundary(st, o.chunks, o.cur, True)

    def boundary(self, st):
        top, cur = self.place(st)
        if self.shift:
            top, cur = self.raw(st)
            if cur is None or len(cur) < 2 or cur[-1] != (self.shift, None):
                return None
            seg = mc.cur_seg(top, cur, len(cur) - 2)
            k = tadd(cur[-2][1], 1)
            if isinstance(k, int) and isinstance(seg.hi, int):
                return None
            return cur[:-2] + ((cur[-2][0], None),), k, seg.hi
        if cur is not None and self.depth is not None:
            cur = lift(st, top, cur, self.depth)
        if cur is None or len(cur) < 2 or cur[-1] != (0, None):
            return None
        if self.depth is None:
            cs = mc.cur_chunks(top, cur)
            k, hi = cur[-2][1], mc.cur_seg(top, cur, len(cur) - 2).hi
            if isinstance(k, int) and isinstance(hi, int):
                return None
        seg = mc.cur_seg(top, cur, len(cur) - 2)
        prefix = cur[:-2] + ((cur[-2][0], None),)
        return prefix, cur[-2][1], seg.hi

    def at(self, st):
        return self.boundary(st)

    def seg(self, st):
        """The repetition the source stands in."""
        top, cur = self.raw(st) if self.shift else self.place(st)
        if cur is not None and self.depth is not None:
            cur = lift(st, top, cur, self.depth)
        return mc.cur_seg(top, cur, len(cur) - 2) if cur is not None and len(cur) >= 2 else None

    def raw(self, st):
        o = st.heap.get(self.id)
        return (o.chunks, o.cur) if o is not None else (None, None)

    def variants(self, st):
        """The ways to see the source at the position it has in st."""
        if self.depth is not None:
            return (self,)
        top, cur = self.raw(st)
        if cur is None or len(cur) < 2 or cur[-1][1] is not None or not cur[-1][0]:
            return (self,)
        return (self, type(self)(*self.args(), None, cur[-1][0]))

    def levels(self, st):
        """The same source seen at each enclosing repetition."""
        top, cur = self.place(st)
        if cur is None:
            return ()
        return tuple(type(self)(*self.args(), d) for d in range(len(cur), 1, -1))

    def args(self):
        return (self.id,)


class IdxSource:
    """An object with an integer position attribute over a tuple/list attribute (Block)."""
    __slots__ = ("id", "ia", "da", "off", "shift")

    def __init__(self, id, ia, da, off, shift=0):
        self.id, self.ia, self.da, self.off, self.shift = id, ia, da, off, shift

    def key(self):
        return ("idx", self.id, self.ia, self.da, self.off, self.shift)

    def variants(self, st):
        out = [self, IdxSource(self.id, self.ia, self.da, 1 - self.off)]
        widths = {chunks_len(c.body) for c in self.data(st) or () if isinstance(c, Seg)}
        m = max([w for w in widths if isinstance(w, int)], default=1)
        return out + [IdxSource(self.id, self.ia, self.da, o, r) for o in (self.off, 1 - self.off) for r in range(1, min(m, 12))]

    def data(self, st):
        o = st.heap.get(self.id)
        if not isinstance(o, HInst):
            return None
        d = o.attrs.get(self.da)
        if isinstance(d, Tup):
            return d.items
        if isinstance(d, Ref) and isinstance(st.heap.get(d.id), HList):
            return st.heap[d.id].items
        return None

    def boundary(self, st):
        o = st.heap.get(self.id)
        if o is None or not isinstance(o, HInst):
            return None
        d = self.data(st)
        iv = o.attrs.get(self.ia)
        if d is None or not isinstance(iv, (int, SInt)) or isinstance(iv, bool):
            return None
        p = tadd(iv if isinstance(iv, int) else iv.t, self.off)
        return self.locate(st, d, p)

    def locate(self, st, d, p):
        pos = 0
        M = mc.M()
        for n, c in enumerate(d):
            ln = chunk_len(c)
            end = tadd(pos, ln)
            if not isinstance(c, Seg):
                if same_term(p, pos):
                    return None
                if isinstance(p, int) and isinstance(end, int):
                    if p < end:
                        return None
                elif not M.prove(st, zint(p) >= zint(end)):
                    return None
            else:
                m = chunks_len(c.body)
                if not isinstance(m, int) or m == 0:
                    return None
                if same_term(p, end) or M.prove(st, zint(p) >= zint(end)):
                    pos = end
                    continue
                off = tsub(p, pos)
                if self.shift >= m:
                    return None
                q = exact_div(tsub(off, self.shift), m)
                if q is None:
                    return None
                k = tadd(c.lo, q)
                if self.shift:
                    k = tadd(k, 1)
                if isinstance(k, int) and isinstance(c.hi, int):
                    return None
                return (n,), k, c.hi
            pos = end
        return None

    at = boundary

    def seg(self, st):
        b, d = self.boundary(st), self.data(st)
        return d[b[0][0]] if b is not None else None

    def levels(self, st):
        return self.variants(st)[:2]


class PosSource(CurSource):
    """An instance attribute that is a position in a tuple with nested repetitions (Block)."""
    __slots__ = ("ia",)

    def __init__(self, id, ia, depth=None, shift=0):
        super().__init__(id, depth, shift)
        self.ia = ia

    def key(self):
        return ("pos", self.id, self.ia, self.shift) if self.shift else ("pos", self.id, self.ia)

    def args(self):
        return (self.id, self.ia)

    def place(self, st):
        top, cur = self.raw(st)
        return (top, cur_boundary(st, top, cur, True)) if top is not None else (None, None)

    def raw(self, st):
        o = st.heap.get(self.id)
        if not isinstance(o, HInst) or self.ia not in o.attrs:
            return None, None
        a = o.attrs[self.ia]
        if type(a) is int or isinstance(a, SPos):
            a = mc.inst_pos(o, a)
        if not isinstance(a, SPos):
            return None, None
        a = mc.pos_canon(st, a)
        if a.off not in (0, -1):
            return None, None
        return a.chunks, a.cur


def exact_div(t, m):
    """t / m when t is syntactically a multiple of m (linear), else None."""
    if m == 1:
        return t
    if isinstance(t, int):
        return t // m if t % m == 0 else None
    lin = linear(t)
    if lin is None:
        return None
    c, terms = lin
    if c % m or any(k % m for k, _ in terms):
        return None
    r = z3.IntVal(c // m)
    for k, x in terms:
        r = r + (k // m) * x
    r = z3.simplify(r)
    return r.as_long() if z3.is_int_value(r) else r


def linear(t):
    """(const, [(coef, atom)]) of a simplified linear z3 term."""
    t = z3.simplify(zint(t))
    c = 0
    terms = []

    def go(x, k):
        nonlocal c
        if z3.is_int_value(x):
            c += k * x.as_long()
        elif z3.is_add(x):
            for y in x.children():
                go(y, k)
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
            go(x.arg(1), k * x.arg(0).as_long())
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UMINUS:
            go(x.arg(0), -k)
        else:
            terms.append((k, x))
    go(t, 1)
    return c, terms


def sources(st, everywhere=False):
    order, _ = reach(st)
    top = st.frames[-1]
    res = []
    for i in order:
        o = st.heap[i]
        if isinstance(o, (HIter, HFile)) or hasattr(o, "is_source"):
            if has_seg(o.chunks):
                s = CurSource(i)
                b = s.boundary(st)
                if b is not None or everywhere:
                    res.append((s, b))
        elif isinstance(o, HInst):
            ds = [k for k, v in o.attrs.items()
                  if isinstance(v, Tup) and has_seg(v.items)
                  or isinstance(v, Ref) and isinstance(st.heap.get(v.id), HList) and has_seg(st.heap[v.id].items)]
            nd = [k for k in ds if isinstance(o.attrs[k], Tup) and nested(o.attrs[k].items)]
            if len(nd) == 1:
                for ia, v in o.attrs.items():
                    if type(v) is int or isinstance(v, SPos):
                        s = PosSource(i, ia)
                        b = s.boundary(st)
                        if b is not None or everywhere:
                            res.append((s, b))
            elif ds:
                for ia, v in o.attrs.items():
                    if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                        for da in ds:
                            for off in (1, 0):
                                s = IdxSource(i, ia, da, off)
                                b = s.boundary(st)
                                if b is not None:
                                    res.append((s, b))
    # direct source (iterator on top of the stack) first
    if top.stack and isinstance(top.stack[-1], Ref):
        tid = top.stack[-1].id
        res.sort(key=lambda x: 0 if x[0].id == tid else 1)
    return res


def prefix_eq(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, int):
            if x != y:
                return False
            continue
        if x[0] != y[0]:
            return False
        if (x[1] is None) != (y[1] is None):
            return False
        if x[1] is not None and not same_term(x[1], y[1]):
            return False
    return True


# ------------------------------------------------------------------------------------------------ anti-unification
def nleaves(t):
    if isinstance(t, int):
        return int(t != 0)
    c, parts = linear_parts(t)
    return int(c != 0) + len(parts)


def at_index(d, base, j):
    """d with the function arguments near base written in terms of j (j = base gives d); None when there are none."""
    hit = [False]

    def go(t):
        if not z3.is_app(t) or t.num_args() == 0:
            return t
        cs = list(t.children())
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out = []
            for x in cs:
                if x.sort() == IntS:
                    c = tsub(x, base)
                    if isinstance(c, int) and -2 <= c <= 2:
                        hit[0] = True
                        out.append(zint(tadd(j, c)))
                        continue
                out.append(go(x))
            return t.decl()(*out)
        return t.decl()(*[go(x) for x in cs])
    r = go(d)
    return r if hit[0] else None


def digit_pieces(ps):
    """Text pieces with the runs of digits apart."""
    return [q for p in ps for q in (re.findall(r"[0-9]+|[^0-9]+", p) if isinstance(p, str) else [p])]


def digits_value(p):
    """Integer whose decimal text the piece is."""
    if isinstance(p, str):
        return int(p) if p.isdigit() and (p == "0" or p[0] != "0") else None
    return p.t.arg(0) if z3.is_app(p.t) and p.t.decl().eq(ITOA) else None


class AU:
    def __init__(self, M, s1, s2, K, base):
        """s1 is the state at K=base, s2 at K=base+1."""
        self.M, self.s1, self.s2, self.K, self.base = M, s1, s2, K, base
        self.ids = {}
        self.rev = {}
        self.heap = {}
        self.cnt1 = reach(s1)[1]
        self.cnt2 = reach(s2)[1]
        self.dead = dead_cells(s1, self.cnt1), dead_cells(s2, self.cnt2)
        self.depth = 0

    # ---- leaves
    def int_(self, a, b):
        if same_term(a, b):
            return a
        d = tsub(b, a)
        if not isinstance(d, int):
            return self.sum_(a, d)
        return tadd(a, tmul(d, tsub(self.K, self.base)))

    def sum_(self, a, d):
        """Guess: the same term at the next index, or round j adds d(j) where d(base) = d."""
        j = SUMVAR
        whole = None if isinstance(a, int) else at_index(a, self.base, j)
        if whole is not None and same_term(z3.substitute(whole, (j, zint(tadd(self.base, 1)))), tadd(a, d)):
            return z3.simplify(z3.substitute(whole, (j, self.K)))
        body = at_index(d, self.base, j)
        if body is None:
            raise Fail(f"non constant step {d}")
        lo = self.base
        while isinstance(lo, int) and lo > 0:
            prev = tsub(a, z3.substitute(body, (j, z3.IntVal(lo - 1))))
            if nleaves(prev) >= nleaves(a):
                break
            a, lo = prev, lo - 1
        return tadd(a, mk_sum(body, lo, self.K))

    def term(self, a, b):
        if a.eq(b):
            return a
        if a.sort() != b.sort():
            raise Fail("sort")
        if a.sort() == IntS:
            if z3.is_app(a) and z3.is_app(b) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.num_args() and \
                    a.decl().eq(b.decl()):
                return a.decl()(*[self.term(x, y) for x, y in zip(a.children(), b.children())])
            try:
                r = self.int_(a, b)
                return zint(r)
            except Fail:
                pass
        if z3.is_app(a) and z3.is_app(b) and a.decl().eq(b.decl()) and a.num_args() == b.num_args() and a.num_args():
            return a.decl()(*[self.term(x, y) for x, y in zip(a.children(), b.children())])
        raise Fail(f"terms {a} / {b}")

    def bound(self, a, b):
        if isinstance(a, int) or isinstance(b, int):
            return self.int_(a, b)
        r = self.term(a, b)
        r = z3.simplify(r)
        return r.as_long() if z3.is_int_value(r) else r

    def val(self, a, b):
        if a is b and not isinstance(a, HOLDERS):
            return a
        if isinstance(a, SPos) and isinstance(b, SPos) and a.uid == b.uid:
            a, b = mc.pos_canon(self.s1, a), mc.pos_canon(self.s2, b)
            if a.off != b.off:
                raise Fail("position")
            ca = Cmp(self.M, self.s1, self.s1).cnorm(a.cur, a.chunks)
            cb = Cmp(self.M, self.s2, self.s2).cnorm(b.cur, b.chunks)
            return SPos(a.uid, a.chunks if a.chunks is b.chunks else self.chunks(a.chunks, b.chunks),
                        self.cur(ca, cb), a.off)
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)) and not isinstance(a, bool) \
                and not isinstance(b, bool):
            x = self.bound(a if isinstance(a, int) else a.t, b if isinstance(b, int) else b.t)
            return x if isinstance(x, int) else simp_int(x)
        if isinstance(a, str) and isinstance(b, str) and a != b:
            return mkstr(self.pieces(pieces_of(a), pieces_of(b)))
        if isinstance(a, CONCRETE) and isinstance(b, CONCRETE):
            if type(a) is type(b) and (a == b or a != a and b != b):
                return a
            raise Fail(f"values {a!r:.40} / {b!r:.40}")
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and type(a) is not type(b):
            return mkstr(self.pieces(pieces_of(a), pieces_of(b)))
        if type(a) is not type(b):
            raise Fail(f"kinds {a!r:.60} / {b!r:.60}")
        if isinstance(a, strs.Poison):
            return a                            # groups of equal strings under one pattern are equal
        if isinstance(a, SBool):
            return SBool(self.term(a.t, b.t))
        if isinstance(a, SFlt):
            return SFlt(self.term(a.t, b.t))
        if isinstance(a, SVal):
            if a.pytype is not b.pytype:
                raise Fail("pytype")
            return SVal(self.term(a.t, b.t), a.pytype, a.truthy)
        if isinstance(a, SStr):
            return mkstr(self.pieces(a.pieces, b.pieces))
        if isinstance(a, Atom):
            return self.atom(a, b)
        if isinstance(a, JoinStr):
            if a.sep != b.sep:
                raise Fail("join")
            return JoinStr(a.sep, self.chunks(a.chunks, b.chunks))
        if isinstance(a, SBytes):
            if a.kind != b.kind or (a.chunks is None) != (b.chunks is None):
                raise Fail("bytes")
            return SBytes(None if a.t is None else self.term(a.t, b.t), a.kind,
                          None if a.chunks is None else self.chunks(a.chunks, b.chunks),
                          None if a.nbytes is None or b.nbytes is None or a.t is None else self.bound(a.nbytes, b.nbytes))
        if isinstance(a, Tup):
            return Tup(self.chunks(a.items, b.items), a.uid if a.uid == b.uid else None)
        if isinstance(a, FList):
            return FList(self.chunks(a.items, b.items)).like(a, b)
        if isinstance(a, FDict):
            if a.cls is not b.cls or a.factory is not b.factory:
                raise Fail("dict class")
            return FDict(self.chunks(a.entries, b.entries), a.cls, a.factory).like(a, b)
        if isinstance(a, FSet):
            if a.cls is not b.cls:
                raise Fail("set class")
            return FSet(self.chunks(a.items, b.items), a.cls).like(a, b)
        if isinstance(a, FInst):
            if a.cls is not b.cls or list(a.attrs) != list(b.attrs):
                raise Fail("inst")
            return FInst(a.cls, {k: self.val(v, b.attrs[k]) for k, v in a.attrs.items()}).like(a, b)
        if isinstance(a, KV):
            return KV(self.val(a.k, b.k), self.val(a.v, b.v))
        if isinstance(a, Seg):
            return self.seg(a, b)
        if isinstance(a, Ref):
            return self.ref(a, b)
        if isinstance(a, Tell):
            r = self.ref(Ref(a.fid), Ref(b.fid))
            return Tell(r.id, self.cur(a.cur, b.cur))
        if isinstance(a, Bound):
            if isinstance(a.fn, NativeMethod) and isinstance(b.fn, NativeMethod):
                if a.fn.pytype is not b.fn.pytype or a.fn.name != b.fn.name:
                    raise Fail("method")
                return Bound(a.fn, self.val(a.self, b.self))
            if a.fn is not b.fn:
                if isinstance(a.fn, (Func, Ref)):
                    return Bound(self.val(a.fn, b.fn), self.val(a.self, b.self))
                raise Fail("bound")
            return Bound(a.fn, self.val(a.self, b.self))
        if isinstance(a, NativeMethod):
            if a.pytype is b.pytype and a.name == b.name:
                return a
            raise Fail("native method")
        if isinstance(a, Func):
            if a.code is not b.code or len(a.closure or ()) != len(b.closure or ()):
                raise Fail("func")
            d = None if a.defaults is None else tuple(self.val(x, y) for x, y in zip(a.defaults, b.defaults))
            c = None if a.closure is None else [self.val(x, y) for x, y in zip(a.closure, b.closure)]
            return Func(a.code, a.globals, d, a.kwdefaults, c, a.name, a.real)
        if isinstance(a, Partial):
            if len(a.args) != len(b.args) or list(a.kw) != list(b.kw):
                raise Fail("partial")
            return Partial(self.val(a.fn, b.fn), [self.val(x, y) for x, y in zip(a.args, b.args)],
                           {k: self.val(v, b.kw[k]) for k, v in a.kw.items()})
        if isinstance(a, DView):
            return DView(self.ref(a.ref, b.ref), a.kind)
        if isinstance(a, SSlice):
            return SSlice(self.val(a.a, b.a), self.val(a.b, b.b), self.val(a.c, b.c))
        if isinstance(a, RMatch):
            if a.pattern is not b.pattern or len(a.groups) != len(b.groups):
                raise Fail("match")
            return RMatch(a.pattern, self.val(a.string, b.string), [self.val(x, y) for x, y in zip(a.groups, b.groups)])
        if isinstance(a, SymRange):
            return SymRange(*[self.val(getattr(a, s), getattr(b, s)) for s in SymRange.__slots__])
        if isinstance(a, SuperProxy) and a.cls is b.cls:
            return SuperProxy(a.cls, self.val(a.self, b.self))
        try:
            if a == b:
                return a
        except Exception:
            pass
        raise Fail(f"values {a!r:.60} / {b!r:.60}")

    def pieces(self, a, b):
        if len(a) != len(b) or any(isinstance(x, str) != isinstance(y, str) or isinstance(x, str) and x != y
                                   for x, y in zip(a, b)):
            a, b = digit_pieces(a), digit_pieces(b)
        if len(a) != len(b):
            raise Fail("text shape")
        out = []
        for x, y in zip(a, b):
            if isinstance(x, str) or isinstance(y, str):
                if not (isinstance(x, str) and x == y):
                    nx, ny = digits_value(x), digits_value(y)
                    if nx is None or ny is None:
                        raise Fail("text")
                    n = zint(self.bound(nx, ny))
                    x = Atom(ITOA(n), INTLEX, SInt(n))
                out.append(x)
            else:
                out.append(self.atom(x, y))
        return out

    def atom(self, x, y):
        if x.cls is not y.cls or (x.num is None) != (y.num is None):
            raise Fail("field class")
        return Atom(self.term(x.t, y.t), x.cls, None if x.num is None else self.val(x.num, y.num))

    def seg(self, a, b):
        lo = self.bound(a.lo, b.lo)
        hi = self.bound(a.hi, b.hi)
        bb = b.body if b.var.eq(a.var) else subst_chunks(b.body, [(b.var, a.var)])
        if a.facts is not b.facts and not (a.facts is not None and b.facts is not None):
            raise Fail("facts")
        body = self.chunks(a.body, bb)
        facts = a.facts
        if a.facts is not None and a.facts is not b.facts:
            j = z3.Int("fact!probe")
            f1, f2 = a.facts(j), b.facts(j)
            if len(f1) != len(f2):
                raise Fail("facts")
            ft = [self.term(x, y) for x, y in zip(f1, f2)]
            facts = lambda k: [z3.substitute(f, (j, k)) for f in ft]
        return Seg(a.var, lo, hi, body, facts)

    def cur(self, a, b):
        if len(a) != len(b):
            raise Fail("cursor depth")
        out = []
        for (i, k), (j, l) in zip(a, b):
            if i != j or (k is None) != (l is None):
                raise Fail("cursor")
            out.append((i, None if k is None else self.bound(k, l)))
        return tuple(out)

    # ---- chunk lists
    def chunks(self, a, b):
        if a is b and not any(isinstance(x, HOLDERS) for x in a):
            return tuple(a)
        if len(a) == len(b):
            snap = self.save()
            try:
                return tuple(self.val(x, y) for x, y in zip(a, b))
            except Fail:
                self.restore(snap)
                raise
        m = len(b) - len(a)
        if m < 0:
            raise Fail("sequence shrinks")
        err = None
        for s in range(0, len(a) - m + 1):
            snap = self.save()
            try:
                return self.grow(a, b, m, s)
            except Fail as e:
                err = e
                self.restore(snap)
                if s > 6:
                    break
        raise Fail(f"sequence growth: {err}")

    def grow(self, a, b, m, s):
        """a = P + X(b) + Q, b = P + X(b) + X(b+1) + Q with |X| = m, |Q| = s"""
        na = len(a) - s - m
        pa, xa, qa = a[:na], a[na:na + m], a[na + m:]
        pb, xb0, xb1, qb = b[:na], b[na:na + m], b[na + m:na + 2 * m], b[na + 2 * m:]
        q = [self.val(x, y) for x, y in zip(qa, qb)]
        p = [self.val(x, y) for x, y in zip(pa, pb)]
        X = []
        for x, y0, y1 in zip(xa, xb0, xb1):
            f1 = self.frz(self.s1, self.cnt1, x)
            f0 = self.frz(self.s2, self.cnt2, y0)
            f2 = self.frz(self.s2, self.cnt2, y1)
            # the older element must not have changed
            AU(self.M, self.s1, self.s2, self.K, self.base)._same(f1, f0)
            X.append(self.val(f1, f2))
        i = fresh_int("i")
        X = subst_chunks(X, [(self.K, z3.simplify(i + 1))])
        lo = tsub(self.base, 1)
        # earlier rounds' elements join the repetition
        while isinstance(lo, int) and lo > 0 and len(pa) >= m and not any(isinstance(x, Seg) for x in pa[-m:]):
            prev = subst_chunks(X, [(i, z3.IntVal(lo - 1))])
            try:
                for x, y in zip(pa[-m:], prev):
                    Cmp(self.M, self.s1, self.s1).val(self.frz(self.s1, self.cnt1, x), y)
            except (Mismatch, Fail, Unsupported, KeyError):
                break
            pa, p = pa[:-m], p[:-m]
            lo -= 1
        return tuple(p) + (Seg(i, lo, self.K, X),) + tuple(q)

    def _same(self, x, y):
        K = self.K
        r = self.val(x, y)
        if mentions(r, K):
            raise Fail("earlier element changed")

    def frz(self, st, cnt, v):
        inner = mc.edge_counts(st, v)
        for i, c in inner.items():
            if cnt.get(i, 0) > c:
                raise Fail("aliased element")
        try:
            return freeze(st, v)
        except Unsupported as e:
            raise Fail(str(e))

    # ---- heap
    def save(self):
        return dict(self.ids), dict(self.rev), dict(self.heap)

    def restore(self, s):
        self.ids, self.rev, self.heap = dict(s[0]), dict(s[1]), dict(s[2])

    def ref(self, a, b):
        if a.id in self.ids:
            if self.ids[a.id] != b.id:
                raise Fail("aliasing differs")
            return Ref(a.id)
        if b.id in self.rev:
            raise Fail("aliasing differs")
        oa, ob = self.s1.heap[a.id], self.s2.heap[b.id]
        if type(oa) is not type(ob):
            raise Fail("object kinds")
        self.ids[a.id] = b.id
        self.rev[b.id] = a.id
        if oa is ob and a.id == b.id and self._static(a.id):
            pass
        n = oa.copy()
        self.heap[a.id] = n
        try:
            self._obj(n, oa, ob)
        except Fail as e:
            raise Fail(f"{type(oa).__name__}@{a.id}: {e}")
        if oa.origin is None and ob.origin is None:
            n.origin = None
        elif oa.origin is not None and ob.origin is not None:
            k1, w1, g1, i1, r1, gr1 = oa.origin
            k2, w2, g2, i2, r2, gr2 = ob.origin
            if k1 != k2 or (w1 is None) != (w2 is None):
                raise Fail("origin")
            if w1 is not None and self.ids.get(w1, w2) != w2:
                raise Fail("origin owner")
            n.origin = (k1, w1, self.seg(g1, g2), self.bound(i1, i2), r1, gr1)
        else:
            raise Fail("origin")
        return Ref(a.id)

    def _static(self, i):
        return False

    def dead_pair(self, a, b):
        return any(self.s1.heap.get(i) is a for i in self.dead[0]) and any(self.s2.heap.get(i) is b for i in self.dead[1])

    def _obj(self, n, a, b):
        if isinstance(a, HList):
            n.items = list(self.chunks(a.items, b.items))
        elif isinstance(a, HDict):
            if a.cls is not b.cls or a.factory is not b.factory:
                raise Fail("dict class")
            n.entries = list(self.chunks(a.entries, b.entries))
        elif isinstance(a, HSet):
            if a.cls is not b.cls:
                raise Fail("set class")
            n.items = list(self.chunks(a.items, b.items))
        elif isinstance(a, HInst):
            if a.cls is not b.cls or list(a.attrs) != list(b.attrs):
                raise Fail("instance")
            n.attrs = {}
            for k, v in a.attrs.items():
                try:
                    n.attrs[k] = self.val(v, b.attrs[k])
                except Fail as e:
                    raise Fail(f".{k}: {e}")
        elif isinstance(a, HCell):
            n.v = NULL if self.dead_pair(a, b) else self.val(a.v, b.v)
        elif isinstance(a, HGen):
            if a.state != b.state or (a.frame is None) != (b.frame is None):
                raise Fail("generator state")
            if a.frame is not None:
                n.frame = self.frame(a.frame, b.frame)
        elif isinstance(a, (HIter, HFile)):
            n.chunks = tuple(self.chunks(a.chunks, b.chunks)) if a.chunks is not b.chunks else a.chunks
            n.cur = self.cur(a.cur, b.cur)
            if isinstance(a, HIter):
                if a.kind != b.kind or (a.owner is None) != (b.owner is None):
                    raise Fail("iterator")
                if a.owner is not None and a.owner in self.s1.heap:
                    self.ref(Ref(a.owner), Ref(b.owner))
            elif a.closed != b.closed or a.name != b.name:
                raise Fail("file")
        elif hasattr(a, "antiunify"):
            a.antiunify(self, n, b)
        else:
            raise Fail(f"object {type(a).__name__}")

    def frame(self, f, g):
        if f.code is not g.code or f.pc != g.pc or len(f.stack) != len(g.stack) or f.kwnames != g.kwnames:
            raise Fail("frames")
        n = f.clone()
        live = f.info.live_at(f.pc)
        n.loc = {}
        for nm in sorted(live):
            a, b = f.loc.get(nm, NULL), g.loc.get(nm, NULL)
            if a is NULL and b is NULL:
                continue
            if a is NULL or b is NULL:
                raise Fail(f"local {nm} bound on one side")
            try:
                n.loc[nm] = self.val(a, b)
            except Fail as e:
                raise Fail(f"{f.code.co_name}.{nm}: {e}")
        n.stack = [NULL if (x is NULL and y is NULL) else self.val(x, y) for x, y in zip(f.stack, g.stack)]
        if f.closure is not None:
            n.closure = [self.val(x, y) for x, y in zip(f.closure, g.closure)]
        if f.gen is not None:
            n.gen = self.ref(f.gen, g.gen) if f.gen.id in self.s1.heap else f.gen
        if f.onret is not None:
            if g.onret is None or len(f.onret) != len(g.onret):
                raise Fail("onret")
            n.onret = tuple(self.val(x, y) if isinstance(x, (Ref, Sym, Tup)) else _same(x, y)
                            for x, y in zip(f.onret, g.onret))
        return n

    def state(self):
        s1, s2 = self.s1, self.s2
        if len(s1.frames) != len(s2.frames) or len(s1.exc) != len(s2.exc):
            raise Fail("stack depth")
        T = s1.clone()
        T.frames = [self.frame(f, g) for f, g in zip(s1.frames, s2.frames)]
        T.exc = [self.val(x, y) if x is not None else x for x, y in zip(s1.exc, s2.exc)]
        T.lifted = {}
        for k, r in s1.lifted.items():
            if k in s2.lifted:
                T.lifted[k] = self.ref(r, s2.lifted[k])
        for k in s1.ghost:
            if k == "exc":
                continue
            if k not in s2.ghost:
                raise Fail("ghost")
            T.ghost[k] = self.val(s1.ghost[k], s2.ghost[k])
        T.heap = self.heap
        T.owned = set()
        return T


def _same(x, y):
    if x is y or x == y:
        return x
    raise Fail("onret")


def mentions(v, K):
    """Does the z3 constant K occur in v?"""
    r = subst(v, [(K, z3.Int("K!probe"))])
    return repr(r) != repr(v)


def collect(st, v, ids):
    todo = []
    if isinstance(v, KV):
        refs_in(v.k, todo)
        refs_in(v.v, todo)
    else:
        refs_in(v, todo)
    while todo:
        i = todo.pop()
        ids.append(i)
        if len(ids) > 5000:
            raise Fail("too large")
        if i not in st.heap:
            continue
        sub = []
        for c in children(st.heap[i]):
            refs_in(c, sub)
        todo += sub


# ------------------------------------------------------------------------------------------------ substitution of states
def subst_state(T, pairs):
    S = T.clone()
    S.heap = {}
    S.owned = set()
    for i, o in T.heap.items():
        S.heap[i] = subst_obj(o, pairs)
    S.frames = [subst_frame(f, pairs) for f in T.frames]
    S.exc = [subst(x, pairs) for x in T.exc]
    S.ghost = {k: subst(v, pairs) for k, v in T.ghost.items()}
    return S


def subst_frame(f, pairs):
    n = f.clone()
    n.loc = {k: sv(v, pairs) for k, v in f.loc.items()}
    n.stack = [sv(v, pairs) for v in f.stack]
    return n


def sv(v, pairs):
    if isinstance(v, Bound):
        return Bound(v.fn, sv(v.self, pairs))
    if isinstance(v, Partial):
        return Partial(v.fn, [sv(x, pairs) for x in v.args], {k: sv(x, pairs) for k, x in v.kw.items()})
    if isinstance(v, SSlice):
        return SSlice(sv(v.a, pairs), sv(v.b, pairs), sv(v.c, pairs))
    if isinstance(v, SymRange):
        return SymRange(*[sv(getattr(v, s), pairs) for s in SymRange.__slots__])
    if isinstance(v, Func):
        return Func(v.code, v.globals, None if v.defaults is None else tuple(sv(x, pairs) for x in v.defaults),
                    v.kwdefaults, v.closure, v.name, v.real)
    return subst(v, pairs)


def tidy(cs):
    """Drop empty segments."""
    return [c for c in cs if not (isinstance(c, Seg) and same_term(c.lo, c.hi))]


def subst_obj(o, pairs):
    n = o.copy()
    if isinstance(o, (HList, HSet)):
        n.items = tidy(subst_chunks(o.items, pairs))
    elif isinstance(o, HDict):
        n.entries = tidy(subst_chunks(o.entries, pairs))
    elif isinstance(o, HInst):
        n.attrs = {k: sv(v, pairs) for k, v in o.attrs.items()}
    elif isinstance(o, HCell):
        n.v = sv(o.v, pairs)
    elif isinstance(o, HGen):
        if o.frame is not None:
            n.frame = subst_frame(o.frame, pairs)
    elif isinstance(o, (HIter, HFile)):
        n.chunks = subst_chunks(o.chunks, pairs)
        n.cur = subst_cur(o.cur, pairs)
    elif hasattr(o, "subst"):
        n = o.subst(pairs)
    if o.origin is not None:
        k, w, g, i, r, gr = o.origin
        n.origin = (k, w, subst(g, pairs), subst_bound(i, pairs), r, gr)
    return n


# ------------------------------------------------------------------------------------------------ equivalence
class Cmp:
    """Proof that a state (or value) a equals b; z3 goals are proved under a's path condition."""

    def __init__(self, M, sa, sb, extra=(), strict=True):
        self.M, self.sa, self.sb = M, sa, sb
        self.ids, self.rev = {}, {}
        self.st = sa.clone()
        for c in extra:
            self.st.add(c)
        self.cnta = reach(sa)[1] if strict else {}
        self.dead = dead_cells(sa, self.cnta) if strict else ()
        self.strict = strict
        self.goals = 0
        self.npeel = 0

    def fail(self, msg):
        raise Mismatch(msg)

    def prove(self, c):
        self.goals += 1
        return self.M.prove(self.st, c)

    def term(self, a, b, what="term"):
        if a.eq(b):
            return
        if a.sort() != b.sort() or not self.prove(a == b):
            self.fail(f"{what}: {a} is not {b}")

    def bnd(self, a, b, what="bound"):
        if same_term(a, b):
            return
        if not self.prove(zint(a) == zint(b)):
            self.fail(f"{what}: {a} is not {b}")

    def val(self, a, b):
        if a is b and not isinstance(a, HOLDERS):
            return
        if isinstance(a, Ref) and isinstance(b, Ref):
            return self.ref(a, b)
        if isinstance(a, Ref) and isinstance(b, Frozen):
            return self.ref_frozen(a, b, self.sa, self.sb, False)
        if isinstance(a, Frozen) and isinstance(b, Ref):
            return self.ref_frozen(b, a, self.sb, self.sa, True)
        if isinstance(a, SPos) and isinstance(b, SPos) and a.uid == b.uid:
            a, b = mc.pos_canon(self.st, a), mc.pos_canon(self.st, b)
            if a.off == b.off:
                return self.cur(a.cur, b.cur, a.chunks)
        ints = (int, SInt)
        if isinstance(a, ints) and isinstance(b, ints) and not isinstance(a, bool) and not isinstance(b, bool):
            return self.bnd(zint(a) if not isinstance(a, int) else a, zint(b) if not isinstance(b, int) else b, "int")
        if isinstance(a, CONCRETE) and isinstance(b, CONCRETE):
            if type(a) is type(b) and (a == b or a != a and b != b):
                return
            self.fail(f"{a!r:.60} is not {b!r:.60}")
        bools = (bool, SBool)
        if isinstance(a, bools) and isinstance(b, bools):
            x = a.t if isinstance(a, SBool) else z3.BoolVal(a)
            y = b.t if isinstance(b, SBool) else z3.BoolVal(b)
            return self.term(x, y)
        if isinstance(a, (SFlt, float)) and isinstance(b, (SFlt, float)):
            return self.term(mc.zflt(a), mc.zflt(b), "float")
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            return self.text(a, b)
        if type(a) is not type(b):
            self.fail(f"{a!r:.80} is not {b!r:.80}")
        if isinstance(a, strs.Poison):
            return
        if isinstance(a, SVal):
            if a.pytype is not b.pytype:
                self.fail("value type")
            return self.term(a.t, b.t)
        if isinstance(a, JoinStr):
            if a.sep != b.sep:
                self.fail("join separator")
            return self.chunks(a.chunks, b.chunks)
        if isinstance(a, SBytes):
            if a.kind != b.kind:
                self.fail("bytes of another kind")
            return self.term(a.t, b.t, "bytes") if a.t is not None else self.chunks(a.chunks, b.chunks)
        if isinstance(a, Tup):
            return self.chunks(a.items, b.items)
        if isinstance(a, FList):
            return self.chunks(a.items, b.items)
        if isinstance(a, FDict):
            self.dcls(a, b)
            return self.chunks(a.entries, b.entries) if self.strict else self.dict_items(a.entries, b.entries)
        if isinstance(a, FSet):
            return self.chunks(a.items, b.items)
        if isinstance(a, FInst):
            if a.cls is not b.cls or set(a.attrs) != set(b.attrs):
                self.fail("instance")
            for k in a.attrs:
                self.val(a.attrs[k], b.attrs[k])
            return
        if isinstance(a, Seg):
            self.bnd(a.lo, b.lo)
            self.bnd(a.hi, b.hi)
            self.chunks_static(a.body, b.body if a.var.eq(b.var) else subst_chunks(b.body, [(b.var, a.var)]))
            return
        if isinstance(a, KV):
            self.val(a.k, b.k)
            try:
                self.val(a.v, b.v)
            except Mismatch as e:
                raise Mismatch(f"[{a.k!r:.50}] {e}")
            return
        if isinstance(a, Tell):
            self.ref(Ref(a.fid), Ref(b.fid))
            return self.cur(a.cur, b.cur, self.sa.heap[a.fid].chunks)
        if isinstance(a, Bound):
            if not (a.fn is b.fn or isinstance(a.fn, NativeMethod) and isinstance(b.fn, NativeMethod)
                    and a.fn.name == b.fn.name and a.fn.pytype is b.fn.pytype):
                if isinstance(a.fn, (Func, Ref)):
                    self.val(a.fn, b.fn)
                else:
                    self.fail("method")
            return self.val(a.self, b.self)
        if isinstance(a, NativeMethod):
            if a.pytype is b.pytype and a.name == b.name:
                return
            self.fail("native method")
        if isinstance(a, Func):
            if a.code is not b.code:
                self.fail("function")
            for x, y in zip(a.closure or (), b.closure or ()):
                self.val(x, y)
            for x, y in zip(a.defaults or (), b.defaults or ()):
                self.val(x, y)
            return
        if isinstance(a, Partial):
            self.val(a.fn, b.fn)
            if len(a.args) != len(b.args) or list(a.kw) != list(b.kw):
                self.fail("partial")
            for x, y in zip(a.args, b.args):
                self.val(x, y)
            for k in a.kw:
                self.val(a.kw[k], b.kw[k])
            return
        if isinstance(a, DView):
            if a.kind != b.kind:
                self.fail("view")
            return self.ref(a.ref, b.ref)
        if isinstance(a, SSlice):
            self.val(a.a, b.a)
            self.val(a.b, b.b)
            return self.val(a.c, b.c)
        if isinstance(a, RMatch):
            if a.pattern is not b.pattern:
                self.fail("match")
            self.val(a.string, b.string)
            for x, y in zip(a.groups, b.groups):
                self.val(x, y)
            return
        if isinstance(a, SymRange):
            for s in SymRange.__slots__:
                self.val(getattr(a, s), getattr(b, s))
            return
        if isinstance(a, SuperProxy):
            return self.val(a.self, b.self)
        try:
            if a == b:
                return
        except Exception:
            pass
        self.fail(f"{a!r:.60} is not {b!r:.60}")

    def dcls(self, a, b):
        if a.cls is not b.cls and self.strict:
            self.fail("dict class")
        if self.strict and a.factory is not b.factory:
            self.fail("dict factory")

    def text(self, a, b):
        pa, pb = pieces_of(a), pieces_of(b)
        if len(pa) == len(pb):
            for x, y in zip(pa, pb):
                if isinstance(x, str) or isinstance(y, str):
                    if x != y:
                        break
                elif not x.t.eq(y.t):
                    if x.cls is not y.cls or not self.prove(x.t == y.t):
                        break
            else:
                return
        self.fail(f"text {a!r:.100} is not {b!r:.100}")

    def cur(self, a, b, chunks=None):
        if chunks is not None:
            a = self.cnorm(a, chunks)
            b = self.cnorm(b, chunks)
        if len(a) != len(b):
            self.fail(f"cursor {a} / {b}")
        for (i, k), (j, l) in zip(a, b):
            if i != j or (k is None) != (l is None):
                self.fail(f"cursor {a} / {b}")
            if k is not None:
                self.bnd(k, l, "cursor")

    def cnorm(self, cur, chunks):
        """Canonical spelling of a cursor: resolve ends of bodies and decided boundaries."""
        for _ in range(60):
            cs = mc.cur_chunks(chunks, cur)
            i = cur[-1][0]
            if i >= len(cs):
                if len(cur) == 1:
                    return cur
                pi, k = cur[-2]
                cur = cur[:-2] + ((pi, tadd(k, 1)), (0, None))
                continue
            if not (len(cur) >= 2 and i == 0):
                if not isinstance(cs[i], Seg):
                    return cur
                cur = mc._descend(chunks, cur, cs[i])
                continue
            seg = mc.cur_seg(chunks, cur, len(cur) - 2)
            k = cur[-2][1]
            if same_term(k, seg.hi) or self.prove(zint(k) >= zint(seg.hi)):
                cur = cur[:-2] + ((cur[-2][0] + 1, None),)
                continue
            if isinstance(cs[0], Seg) and self.prove(zint(k) < zint(seg.hi)):
                cur = mc._descend(chunks, cur, cs[0])
                continue
            return cur
        return cur

    def ref_frozen(self, r, fz, sr, sf, swapped):
        o = sr.heap[r.id]
        cnt = self.cnta if not swapped else None
        if self.strict:
            if getattr(o, "ro", False) and not fz.is_alias():
                self.fail("shared object where an unshared one is required")
            if cnt is not None and cnt.get(r.id, 0) > 1:
                if not fz.is_alias() or cnt[r.id] > self.inner.get(r.id, 0):
                    self.fail("shared object where an unshared one is required")
            outer = self.inner
            if not outer:
                self.inner = mc.edge_counts(sr, r)
            try:
                return self.ref_frozen_(o, fz, swapped)
            finally:
                self.inner = outer
        return self.ref_frozen_(o, fz, swapped)

    inner = {}

    def ref_frozen_(self, o, fz, swapped):
        if isinstance(o, HList) and isinstance(fz, FList):
            x, y = o.items, fz.items
        elif isinstance(o, HDict) and isinstance(fz, FDict):
            if self.strict:
                if o.cls is not fz.cls or o.factory is not fz.factory:
                    self.fail("dict class")
            x, y = o.entries, fz.entries
        elif isinstance(o, HSet) and isinstance(fz, FSet):
            x, y = o.items, fz.items
        elif isinstance(o, HInst) and isinstance(fz, FInst):
            if o.cls is not fz.cls or set(o.attrs) != set(fz.attrs):
                self.fail("instance")
            for k in o.attrs:
                if swapped:
                    self.val(fz.attrs[k], o.attrs[k])
                else:
                    self.val(o.attrs[k], fz.attrs[k])
            return
        else:
            self.fail(f"{type(o).__name__} against {type(fz).__name__}")
        if swapped:
            x, y = y, x
        if isinstance(o, HDict) and not self.strict:
            return self.dict_items(x, y)
        return self.chunks(x, y)

    def ref(self, a, b):
        if a.id in self.ids:
            if self.ids[a.id] != b.id and self.strict:
                self.fail("aliasing differs")
            if self.ids[a.id] == b.id:
                return
        if b.id in self.rev and self.strict:
            self.fail("aliasing differs")
        self.ids[a.id] = b.id
        self.rev[b.id] = a.id
        oa, ob = self.sa.heap[a.id], self.sb.heap[b.id]
        if oa is ob and a.id == b.id and not list(children(oa)) and not isinstance(oa, (HIter, HFile)):
            return
        if type(oa) is not type(ob):
            self.fail(f"{type(oa).__name__} against {type(ob).__name__}")
        if isinstance(oa, HList):
            self.chunks(oa.items, ob.items)
        elif isinstance(oa, HDict):
            self.dcls(oa, ob)
            if self.strict:
                self.chunks(oa.entries, ob.entries)
            else:
                self.dict_items(oa.entries, ob.entries)
        elif isinstance(oa, HSet):
            if oa.cls is not ob.cls:
                self.fail("set class")
            if self.strict or has_seg(oa.items) or has_seg(ob.items):
                self.chunks(oa.items, ob.items)
            else:
                self.chunks(sorted(oa.items, key=repr), sorted(ob.items, key=repr))
        elif isinstance(oa, HInst):
            if oa.cls is not ob.cls or set(oa.attrs) != set(ob.attrs):
                self.fail("instance")
            for k in oa.attrs:
                try:
                    self.val(oa.attrs[k], ob.attrs[k])
                except Mismatch as e:
                    raise Mismatch(f".{k}: {e}")
        elif isinstance(oa, HCell):
            if any(self.sa.heap.get(i) is oa for i in self.dead):
                return
            if (oa.v is NULL) != (ob.v is NULL):
                self.fail("cell")
            if oa.v is not NULL:
                self.val(oa.v, ob.v)
        elif isinstance(oa, HGen):
            if oa.state != ob.state:
                self.fail("generator state")
            if oa.frame is not None:
                self.frame(oa.frame, ob.frame)
        elif isinstance(oa, (HIter, HFile)):
            if oa.chunks is not ob.chunks:
                self.chunks_static(oa.chunks, ob.chunks)
            self.cur(oa.cur, ob.cur, oa.chunks)
            if isinstance(oa, HIter):
                if oa.kind != ob.kind or (oa.owner is None) != (ob.owner is None):
                    self.fail("iterator")
                if oa.owner is not None and oa.owner in self.sa.heap:
                    self.ref(Ref(oa.owner), Ref(ob.owner))
            elif oa.closed != ob.closed:
                self.fail("file closed")
        elif hasattr(oa, "compare"):
            oa.compare(self, ob)
        else:
            self.fail(f"object {type(oa).__name__}")
        if (oa.origin is None) != (ob.origin is None):
            self.fail("origin")
        if oa.origin is not None:
            self.bnd(oa.origin[3], ob.origin[3], "origin")
            if not oa.origin[2].var.eq(ob.origin[2].var):
                self.fail("origin segment")

    def dict_items(self, x, y):
        """Equality of mappings up to order (plain keys); segments in order."""
        if not has_seg(x) and not has_seg(y) and len(x) == len(y):
            rest = list(y)
            for e in x:
                for n, g in enumerate(rest):
                    c = self.M.eq(self.st, e.k, g.k)
                    if c is True or (c is not False and self.prove(c)):
                        self.val(e, g)
                        del rest[n]
                        break
                else:
                    self.fail(f"key {e.k!r:.60} not expected")
            return
        # plain entries by key, the rest in order
        px, sx = [e for e in x if isinstance(e, KV) and isinstance(e.k, str)], \
            [e for e in x if not (isinstance(e, KV) and isinstance(e.k, str))]
        py, sy = [e for e in y if isinstance(e, KV) and isinstance(e.k, str)], \
            [e for e in y if not (isinstance(e, KV) and isinstance(e.k, str))]
        if (px or py) and (sx or sy):
            kx, ky = {e.k for e in px}, {e.k for e in py}
            if kx != ky:
                self.fail(f"keys: unexpected {sorted(kx - ky)} missing {sorted(ky - kx)}")
            d = {e.k: e for e in py}
            for e in px:
                self.val(e, d[e.k])
            self.chunks(sx, sy)
            return
        if not has_seg(x) and not has_seg(y):
            kx = {repr(e.k) for e in x}
            ky = {repr(e.k) for e in y}
            self.fail(f"keys: unexpected {sorted(kx - ky)} missing {sorted(ky - kx)}"[:300])
        self.chunks(x, y)

    def chunks_static(self, a, b):
        if len(a) != len(b):
            self.fail("source shape")
        for x, y in zip(a, b):
            self.val(x, y)

    # ---- chunk lists with absorption of elements into segments
    def chunks(self, a, b):
        if len(a) == len(b) and all(x is y for x, y in zip(a, b)) and \
                not any(isinstance(x, HOLDERS) for x in a):
            return
        a, b = list(a), list(b)
        n = 0
        while a or b:
            n += 1
            if n > 4000:
                self.fail("sequence comparison does not end")
            if a and isinstance(a[0], Seg) and self.empty(a[0]):
                a.pop(0)
                continue
            if b and isinstance(b[0], Seg) and self.empty(b[0]):
                b.pop(0)
                continue
            if not a or not b:
                self.fail(f"lengths differ: extra {(a or b)[:2]!r:.120}")
            x, y = a[0], b[0]
            if not isinstance(x, Seg) and not isinstance(y, Seg):
                self.val(x, y)
                a.pop(0)
                b.pop(0)
                continue
            if isinstance(x, Seg) and isinstance(y, Seg):
                self.segs(a, b)
                continue
            if isinstance(x, Seg):
                self.peel(a)
            else:
                self.peel(b)

    def empty(self, s):
        return same_term(s.lo, s.hi) or self.prove(zint(s.lo) >= zint(s.hi))

    def peel(self, cs):
        s = cs[0]
        if not self.prove(zint(s.lo) < zint(s.hi)):
            self.fail(f"cannot tell whether {s!r:.80} has an element")
        cs[0:1] = list(seg_at(s, s.lo)) + [Seg(s.var, tadd(s.lo, 1), s.hi, s.body, s.facts)]

    def segs(self, a, b):
        x, y = a[0], b[0]
        la, lb = chunks_len(x.body), chunks_len(y.body)
        if not (isinstance(la, int) and isinstance(lb, int)):
            la = lb = 0 if repr(la) == repr(lb) or len(x.body) == len(y.body) else None
        nx, ny = tsub(x.hi, x.lo), tsub(y.hi, y.lo)
        if len(x.body) != len(y.body) or la != lb or has_seg(x.body) != has_seg(y.body):
            for n, s, cs in ((nx, x, a), (ny, y, b)):
                if n == 1 and isinstance(n, int):
                    cs[0:1] = list(seg_at(s, s.lo))
                    return
            # different grouping: regroup when one divides the other
            if isinstance(la, int) and isinstance(lb, int) and la and lb and not has_seg(x.body) and not has_seg(y.body):
                if lb % la == 0 and self.regroup(a, x, lb // la, ny):
                    return
                if la % lb == 0 and self.regroup(b, y, la // lb, nx):
                    return
            for s, cs, nest in ((x, a, has_seg(x.body)), (y, b, has_seg(y.body))):
                if nest and self.npeel < 40 and self.prove(zint(s.lo) < zint(s.hi)):
                    self.npeel += 1
                    self.peel(cs)
                    return
            self.fail("different element grouping")
        if same_term(nx, ny) or self.prove(zint(nx) == zint(ny)):
            n = nx
            ra = rb = None
        elif self.prove(zint(nx) <= zint(ny)):
            n = nx
            ra, rb = None, Seg(y.var, tadd(y.lo, nx), y.hi, y.body, y.facts)
        elif self.prove(zint(ny) <= zint(nx)):
            n = ny
            ra, rb = Seg(x.var, tadd(x.lo, ny), x.hi, x.body, x.facts), None
        else:
            self.fail(f"repetition counts differ: {nx} / {ny}")
        j = fresh_int("j")
        sub = self.st
        self.st = sub.clone()
        self.st.add(j >= 0)
        self.st.add(j < zint(n))
        for s in (x, y):
            if s.facts is not None:
                for f in s.facts(z3.simplify(zint(s.lo) + j)):
                    self.st.add(f)
        try:
            bx = subst_chunks(x.body, [(x.var, z3.simplify(zint(x.lo) + j))])
            by = subst_chunks(y.body, [(y.var, z3.simplify(zint(y.lo) + j))])
            self.chunks(bx, by)
        finally:
            self.st = sub
        a[0:1] = [] if ra is None else [ra]
        b[0:1] = [] if rb is None else [rb]

    def regroup(self, cs, s, m, n):
        """s (groups of g) as groups of m*g when its count is m*n."""
        cnt = tsub(s.hi, s.lo)
        if not self.prove(zint(cnt) >= m * zint(n)):
            return False
        i = fresh_int("g")
        body = []
        for r in range(m):
            body += list(subst_chunks(s.body, [(s.var, z3.simplify(zint(s.lo) + m * i + r))]))
        new = [Seg(i, 0, n, body)]
        rest = Seg(s.var, tadd(s.lo, tmul(m, n)), s.hi, s.body, s.facts)
        cs[0:1] = new + [rest]
        return True

    # ---- frames & states
    def frame(self, f, g):
        if f.code is not g.code or f.pc != g.pc or len(f.stack) != len(g.stack):
            self.fail("frames")
        for nm in f.info.live_at(f.pc):
            x, y = f.loc.get(nm, NULL), g.loc.get(nm, NULL)
            if x is NULL and y is NULL:
                continue
            if x is NULL or y is NULL:
                self.fail(f"local {nm}")
            try:
                self.val(x, y)
            except Mismatch as e:
                raise Mismatch(f"{f.code.co_name}.{nm}: {e}")
        for x, y in zip(f.stack, g.stack):
            if x is NULL and y is NULL:
                continue
            self.val(x, y)
        if f.closure:
            for x, y in zip(f.closure, g.closure):
                self.val(x, y)
        if f.onret is not None:
            if g.onret is None or len(f.onret) != len(g.onret):
                self.fail("onret")
            for x, y in zip(f.onret, g.onret):
                if isinstance(x, (Ref, Sym, Tup)):
                    self.val(x, y)
                elif not (x is y or x == y):
                    self.fail("onret")

    def states(self):
        a, b = self.sa, self.sb
        if len(a.frames) != len(b.frames) or len(a.exc) != len(b.exc):
            self.fail("depth")
        for f, g in zip(a.frames, b.frames):
            self.frame(f, g)
        for x, y in zip(a.exc, b.exc):
            if x is None and y is None:
                continue
            self.val(x, y)
        for k, r in a.lifted.items():
            if k in b.lifted:
                self.ref(r, b.lifted[k])
        for k in b.ghost:
            if k != "exc":
                self.val(a.ghost[k], b.ghost[k])


def equiv(M, sa, sb, extra=()):
    """None when sa == sb is proved, else the reason."""
    try:
        Cmp(M, sa, sb, extra).states()
        return None
    except Mismatch as e:
        return str(e)
    except Unsupported as e:
        return f"undecided: {e}"
    except KeyError as e:
        return f"heap: {e}"


# ------------------------------------------------------------------------------------------------ summarise
def summarise(M, cur, cond):
    """Called when execution of cur must split on cond.  If cond is "does this source have another round?",
    summarise the innermost enclosing loop that stood at the same boundary."""
    heads = []
    for h in reversed(cur.heads):
        d, code, pc, snap = h
        if len(cur.frames) < d or cur.frames[d - 1].code is not code:
            continue
        fpc = cur.frames[d - 1].pc
        if not ({fpc, fpc - 1} & loop_body(CodeInfo.get(code), pc)):
            continue
        heads.append(h)
    if not heads or len(M.active) >= 6:
        return None
    srcs = []
    allsrc = list(sources(cur))
    for src, (prefix, b, hi) in allsrc:
        c = zint(b) < zint(hi)
        if c.eq(cond) or M.prove(cur, c == cond) or M.prove(cur, c != cond):
            srcs.append((src, prefix, b, hi))
    tried = False
    for src, prefix, b, hi in srcs:
        for h in heads:
            view = copy.copy(h[3])
            view.pc = list(cur.pc)
            for sv in src.variants(view):
                bd = sv.at(view)
                if bd is not None and prefix_eq(bd[0], prefix) and same_term(bd[1], b):
                    break
            else:
                continue
            tried = True
            r = attempt(M, cur, h, sv, prefix, b, hi)
            if r is not None:
                return r
    if tried:
        return None
    # a bound other than the end of a sequence: while slack > 0, one less per round
    slack = slack_of(cond)
    if slack is None:
        return None
    for h in heads:
        view = copy.copy(h[3])
        view.pc = list(cur.pc)
        cands = []
        for src, _bd in sources(view, True):
            for sv in src.levels(view):
                bd = sv.at(view)
                if bd is None:
                    continue
                prefix, b, hi = bd
                now = sv.at(cur)
                if now is not None and prefix_eq(now[0], prefix):
                    if not same_term(now[1], b):
                        cands.append((0, len(cands), sv, prefix, b))
                elif M.prove(cur, zint(tadd(b, 1)) >= zint(hi)):
                    cands.append((1, len(cands), sv, prefix, b))
        for _, _, sv, prefix, b in sorted(cands, key=lambda x: x[:2]):
            for e in (slack, tsub(1, slack)):
                if isinstance(e, int):
                    continue
                r = attempt(M, cur, h, sv, prefix, b, tadd(b, e), derived=True)
                if r is not None:
                    return r
    return None


def slack_of(cond):
    """E with cond <=> E > 0, for a linear integer inequality."""
    neg = False
    while z3.is_not(cond):
        neg = not neg
        cond = cond.arg(0)
    if not z3.is_app(cond) or cond.num_args() != 2 or cond.arg(0).sort() != IntS:
        return None
    k = cond.decl().kind()
    a, b = cond.arg(0), cond.arg(1)
    if k == z3.Z3_OP_LE:
        e = tadd(tsub(b, a), 1)
    elif k == z3.Z3_OP_LT:
        e = tsub(b, a)
    elif k == z3.Z3_OP_GE:
        e = tadd(tsub(a, b), 1)
    elif k == z3.Z3_OP_GT:
        e = tsub(a, b)
    elif k == z3.Z3_OP_EQ:
        # counting up or down to equality
        e = tsub(b, a)
        c, terms = linear(e)
        return e if neg else tsub(1, e)
    else:
        return None
    return tsub(1, e) if neg else e


def attempt(M, cur, h, src, prefix, b, hi, derived=False):
    d, code, pc, snap = h
    headkey = (d, code, pc)
    if any(k == src.key() and prefix_eq(p, prefix) and hk == headkey for (k, p, b0, hk) in M.active):
        return None
    fk = (headkey, src.key(), repr(prefix), repr(linear(tsub(hi, b))[1]) if derived else None)
    n = cur.fail.get(fk, 0)
    where = f"{code.co_name}:{line_of(snap.frames[-1])}"
    if n > 4:
        if derived:
            return None
        raise Unsupported(f"loop at {where} not summarised: {M.why}")
    st = snap.clone()
    st.pc = list(cur.pc)
    st.heads = snap.heads + (h,)
    st.fail = dict(cur.fail)
    M.log(f"  try {where} {src.key()} b={b} hi={hi}")
    try:
        r = trial(M, st, src, prefix, b, hi, headkey, derived)
    except NotHere:
        return None
    except (TrialFail, Fail) as e:
        M.why = f"{where}: {e}"
        M.log(f"  no summary {M.why} at {src.key()} b={b}")
        cur.fail[fk] = n + 1
        return None
    except Unsupported as e:
        if isinstance(e, mc.Budget):
            raise
        M.why = f"{where}: {e}"
        M.log(f"  no summary {M.why} at {src.key()} b={b}")
        cur.fail[fk] = n + 1
        return None
    if r is not None:
        M.nsum += 1
    return r


def line_of(f):
    for n in range(f.pc, -1, -1):
        p = f.info.ins[n].positions
        if p is not None and p.lineno:
            return p.lineno
    return 0


def trial(M, st, src, prefix, b, hi, headkey, derived=False):
    depth, code, pc = headkey
    body = loop_body(CodeInfo.get(code), pc)
    gen = st.frames[-1].gen

    def round_(s, k):
        """One round from s at index k (assumes k < hi); (outs, arrivals at k+1, escapes)."""
        s = s.clone()
        s.add(zint(k) < zint(hi))
        if not M.feasible(s):
            return [], [], []
        s.skiphead = True
        target = tadd(k, 1)

        def stop(t):
            ft = t.frames[-1]
            here = len(t.frames) == depth and ft.code is code and ft.pc == pc
            bd = src.at(t)
            if bd is None:
                return None
            if not prefix_eq(bd[0], prefix):
                return "fail" if here and len(bd[0]) == len(prefix) and \
                    all(x[0] == y[0] for x, y in zip(bd[0], prefix) if not isinstance(x, int) and not isinstance(y, int)) else None
            if here and same_term(bd[1], target):
                return "arrive"
            if here and same_term(bd[1], k):
                raise NotHere()
            d = tsub(bd[1], target)
            if isinstance(d, int) and d >= 1:
                return "fail"
            return None

        def leave(t):
            n = len(t.frames)
            if n < depth:
                if gen is not None and gen.id in t.heap and t.heap[gen.id].state == "susp":
                    raise NotHere()
                return True
            if n == depth:
                ft = t.frames[-1]
                return ft.code is code and ft.pc not in body
            return False
        M.active.append((src.key(), prefix, k, headkey))
        try:
            return M.explore([s], stop, leave, limit=M.round * LIMIT_STEPS)
        finally:
            M.active.pop()

    doc = src.seg(st)
    chain = [st]
    extra_outs, extra_states = [], []
    k = b
    why = None
    rounds = []
    for p in range(1, 5):
        outs, arr, esc = round_(chain[-1], k)
        if not arr:
            return None                       # plain execution handles it
        if len(arr) > 1:
            arr2 = []
            for a in arr:
                if any(equiv(M, a, x) is None for x in arr2):
                    continue
                arr2 = [x for x in arr2 if equiv(M, x, a) is not None]
                arr2.append(a)
            if len(arr2) > 1:
                c = splitter(M, chain[-1], arr2)
                if c is not None and p == 1:
                    return [], M.fork(st.clone(), c)
                raise Fail(f"{len(arr2)} different states after one round: {equiv(M, arr2[1], arr2[0])}")
            # path facts that distinguish merged arrivals are dropped
            m = arr2[0].clone()
            common = [x for x in m.pc if all(any(x.eq(y) for y in z.pc) for z in arr)]
            m.pc = common
            arr = [m]
        k = tadd(k, 1)
        rounds.append((outs, esc))
        chain.append(arr[0])
        if p == 1:
            continue
        # anti-unify chain[p-1] and chain[p]
        K = fresh_int("K")
        base = tsub(k, 1)
        try:
            T = AU(M, chain[p - 1], chain[p], K, base).state()
        except Fail as e:
            why = e
            M.log(f"    au fail p={p}: {e}")
            continue
        T.pc = list(chain[p - 1].pc)
        T.heads = st.heads
        # base
        merged = False
        T0 = None
        if p == 2:
            Tb = subst_state(T, [(K, zint(b))])
            w = equiv(M, st, Tb)
            if w is None:
                merged = True
                T.pc = list(st.pc)
                base = b
            else:
                M.log(f"    not merged with the empty case: {w}")
        if not merged:
            T0 = subst_state(T, [(K, zint(base))])
            w = equiv(M, chain[p - 1], T0)
            if w is not None:
                why = f"base: {w}"
                M.log(f"    base fails: {w}")
                continue
        def before(s, k):
            """what the document states about the round before"""
            if doc is not None and doc.facts is not None:
                for f in doc.facts(zint(tsub(k, 1))):
                    s.add(z3.Implies(z3.And(zint(k) > zint(doc.lo), zint(k) <= zint(doc.hi)), f))
        TK = T.clone()
        TK.add(K >= zint(base))
        before(TK, K)
        o2, a2, e2 = round_(TK, K)
        TN = subst_state(T, [(K, z3.simplify(K + 1))])
        bad = None
        for a in a2:
            bad = equiv(M, a, TN)
            if bad is not None:
                break
        M.obl.append((f"loop invariant preserved: {code.co_name}:{line_of(st.frames[-1])}", bad is None))
        if bad is not None:
            why = f"step: {bad}"
            M.log(f"    step fails: {bad}")
            M.obl.pop()
            continue
        more = list(e2)
        outs_all = list(o2)
        if not merged:
            s0 = st.clone()
            s0.add(zint(b) >= zint(hi))
            if M.feasible(s0):
                more.append(s0)
            for r in range(1, p - 1):
                s = chain[r].clone()
                s.add(zint(tadd(b, r)) >= zint(hi))
                if M.feasible(s):
                    more.append(s)
            for r in range(0, p - 1):
                outs_all += rounds[r][0]
                more += rounds[r][1]
        fin = subst_state(T, [(K, zint(hi))])
        fin.add(zint(hi) >= zint(base))
        before(fin, hi)
        ok = M.feasible(fin)
        if ok and a2:
            ok = any(M.feasible(_with(a, zint(tadd(K, 1)) >= zint(hi))) for a in a2) or (
                M.feasible(_with(fin, zint(hi) == zint(base))))
        elif ok:
            ok = M.feasible(_with(fin, zint(hi) == zint(base)))
        if ok:
            fin.trace = fin.trace + ((code.co_name, line_of(st.frames[-1])),)
            more.append(fin)
        if derived:
            s0 = st.clone()
            s0.add(zint(b) > zint(hi))
            s0.skiphead = True
            if M.feasible(s0):
                more.append(s0)
        for s in more:
            s.fail = dict(st.fail)
        M.log(f"    summarised {code.co_name}:{line_of(st.frames[-1])} {src.key()} b={b} hi={hi} p={p} merged={merged} more={len(more)}")
        return outs_all, more
    raise Fail(str(why))


def _with(s, c):
    t = s.clone()
    t.add(c)
    return t


def splitter(M, s0, arr):
    """A path condition over loop-invariant data that separates the arrivals."""
    for a in arr:
        for c in a.pc:
            if any(c.eq(x) for x in s0.pc):
                continue
            if int_apps(c):
                continue
            if any(not any(c.eq(x) for x in z.pc) for z in arr):
                return c
    return None


def int_apps(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and \
            any(c.sort() == IntS for c in t.children()):
        return True
    return any(int_apps(c) for c in t.children())
