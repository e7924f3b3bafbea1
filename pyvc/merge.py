"""Joining of branches.

With ``M.merging`` set, a conditional jump whose condition is open runs both arms to the point where they meet (the
immediate post-dominator in the same frame, or the return of the frame) and continues with one state: numbers and
truth values become if-then-else terms, other values become ``SChoice`` (guarded alternatives), elements appended to a
list in one arm become elements present under that arm's condition, elements added to a set get a guard.  Whatever
cannot be joined stays as separate states, so joining never loses or adds behaviour.
"""
import copy as _copymod

import z3

from . import machine as mc
from . import models, summ
from .machine import CodeInfo, Heap, Machine, Bound, NativeMethod, freeze
from .models import FUNCS, METHODS, fn
from .values import *


class SChoice(Sym):
    """One of several values: alts [(condition, value)], conditions exclusive and exhaustive."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __repr__(self):
        return "SChoice(" + ", ".join(f"{c}: {v!r}" for c, v in self.alts) + ")"


class HOptDict(HObj):
    """Mapping with concrete keys, each present under a condition."""
    __slots__ = ("entries", "pycls")

    def __init__(self, entries):
        self.entries = dict(entries)      # key -> (guard, value)
        self.pycls = dict
        self.origin = None


class HOptSet(HObj):
    """Set whose elements are present under a condition: [(value, guard)]."""
    __slots__ = ("elems", "pycls")

    def __init__(self, elems):
        self.elems = list(elems)
        self.pycls = set
        self.origin = None


class SSorted(Sym):
    """sorted() of a set of texts, held as the set."""
    __slots__ = ("elems",)
    pycls = list

    def __init__(self, elems):
        self.elems = tuple(elems)

    def __repr__(self):
        return f"SSorted({self.elems})"


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def zb(x):
    return x.t if isinstance(x, SBool) else z3.BoolVal(bool(x)) if isinstance(x, bool) else x


def sbool(t):
    t = z3.simplify(t)
    return True if z3.is_true(t) else False if z3.is_false(t) else SBool(t)


class NoMerge(Exception):
    pass


def same(a, b):
    """Surely the same value."""
    if a is b:
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id == b.id
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        from . import strs
        return strs.eq(a, b) is True
    if isinstance(a, CONCRETE) and isinstance(b, CONCRETE):
        return type(a) is type(b) and a == b
    if isinstance(a, (SBool, SInt, SFlt)) and type(a) is type(b):
        return a.t.eq(b.t)
    if isinstance(a, SVal) and isinstance(b, SVal):
        return a.t.eq(b.t)
    if isinstance(a, Tup) and isinstance(b, Tup):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, KV) and isinstance(b, KV):
        return same(a.k, b.k) and same(a.v, b.v)
    if isinstance(a, Seg) and isinstance(b, Seg):
        if not (zint(a.lo).eq(zint(b.lo)) and zint(a.hi).eq(zint(b.hi)) and len(a.body) == len(b.body)):
            return False
        return all(same(x, y if a.var.eq(b.var) else subst(y, [(b.var, a.var)])) for x, y in zip(a.body, b.body))
    if isinstance(a, SChoice) and isinstance(b, SChoice):
        return len(a.alts) == len(b.alts) and all(c.eq(d) and same(x, y) for (c, x), (d, y) in zip(a.alts, b.alts))
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.fn is b.fn and same(a.self, b.self)
    if type(a) is type(b) and not isinstance(a, (Sym, Frozen)):
        try:
            return bool(a == b)
        except Exception:
            return False
    return False


def choice(alts):
    """Value of guarded alternatives, in the simplest form."""
    out = []
    for c, v in alts:
        for c2, v2 in (v.alts if isinstance(v, SChoice) else ((TRUE, v),)):
            g = z3.simplify(z3.And(c, c2))
            if z3.is_false(g):
                continue
            for k, (d, w) in enumerate(out):
                if same(w, v2):
                    out[k] = (z3.simplify(z3.Or(d, g)), w)
                    break
            else:
                out.append((g, v2))
    if len(out) == 1:
        return out[0][1]
    if all(isinstance(v, (bool, SBool)) for _, v in out):
        r = zb(out[-1][1])
        for c, v in reversed(out[:-1]):
            r = z3.If(c, zb(v), r)
        return sbool(r)
    if all(isinstance(v, (int, SInt)) and not isinstance(v, bool) for _, v in out):
        r = zint(out[-1][1])
        for c, v in reversed(out[:-1]):
            r = z3.If(c, zint(v), r)
        return SInt(r)
    return SChoice(out)


def resolve(M, st, v):
    """The alternative the path condition selects (forks when open)."""
    for c, x in v.alts[:-1]:
        if M.decide(st, c):
            return x
    return v.alts[-1][1]


# ------------------------------------------------------------------------------------------------ operations
def truth_term(M, st, v):
    if isinstance(v, SChoice):
        r = FALSE
        for c, x in v.alts:
            r = z3.Or(r, z3.And(c, truth_term(M, st, x)))
        return z3.simplify(r)
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, SInt):
        return v.t != 0
    if isinstance(v, Ref) and isinstance(st.heap[v.id], HOptDict):
        return z3.simplify(z3.Or([g for g, _ in st.heap[v.id].entries.values()] + [FALSE]))
    if isinstance(v, Ref) and isinstance(st.heap[v.id], HOptSet):
        return z3.simplify(z3.Or([g for _, g in st.heap[v.id].elems] + [FALSE]))
    r = M.truth(st, v)
    if not isinstance(r, bool):
        raise Unsupported("truth of a choice")
    return z3.BoolVal(r)


def wrap(cls, name):
    def deco(h):
        old = getattr(cls, name)

        def new(self, *a, **k):
            r = h(self, old, *a, **k)
            return r
        setattr(cls, name, new)
        return h
    return deco


def _opt(st, v):
    return isinstance(v, Ref) and isinstance(st.heap.get(v.id), (HOptDict, HOptSet))


@wrap(Machine, "truth")
def _truth(self, old, st, v):
    if isinstance(v, SChoice) or _opt(st, v):
        return self.decide(st, truth_term(self, st, v))
    return old(self, st, v)


@wrap(Machine, "op_UNARY_NOT")
def _not(self, old, st, f, ins):
    v = f.stack[-1]
    if isinstance(v, SChoice) or _opt(st, v):
        f.stack[-1] = sbool(z3.Not(truth_term(self, st, v)))
        return
    old(self, st, f, ins)


@wrap(Machine, "eq")
def _eq(self, old, st, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SChoice):
            r = FALSE
            for c, v in x.alts:
                e = self.eq(st, v, y)
                r = z3.Or(r, z3.And(c, zb(e)))
            r = z3.simplify(r)
            return True if z3.is_true(r) else False if z3.is_false(r) else r
    return old(self, st, a, b)


@wrap(Machine, "is_")
def _is(self, old, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SChoice):
            r = z3.simplify(z3.Or([c for c, v in x.alts if self.is_(v, y)] + [FALSE]))
            if z3.is_true(r) or z3.is_false(r):
                return z3.is_true(r)
            raise ForkOn(r)
    return old(self, a, b)


@wrap(Machine, "op_IS_OP")
def _is_op(self, old, st, f, ins):
    b, a = f.stack[-1], f.stack[-2]
    if isinstance(a, SChoice) or isinstance(b, SChoice):
        x, y = (a, b) if isinstance(a, SChoice) else (b, a)
        r = z3.simplify(z3.Or([c for c, v in x.alts if self.is_(v, y)] + [FALSE]))
        del f.stack[-2:]
        f.stack.append(sbool(z3.Not(r) if ins.arg else r))
        return
    old(self, st, f, ins)


def _jump_none(name, want):
    @wrap(Machine, name)
    def h(self, old, st, f, ins):
        v = f.stack[-1]
        if isinstance(v, SChoice):
            r = self.decide(st, z3.simplify(z3.Or([c for c, x in v.alts if x is None] + [FALSE])))
            f.stack.pop()
            if r is want:
                f.pc = f.info.at[ins.argval]
            return
        old(self, st, f, ins)


_jump_none("op_POP_JUMP_IF_NONE", True)
_jump_none("op_POP_JUMP_IF_NOT_NONE", False)

_compare, _contains, _to_str, _binop = models.compare, models.contains, models.to_str, models.binop
_getitem, _setitem, _set_add, _len_ = models.getitem, models.setitem, models.set_add, models.len_


def compare(M, st, op, a, b):
    if isinstance(a, SChoice) and op not in ("==", "!="):
        return choice([(c, compare(M, st, op, v, b)) for c, v in a.alts])
    if isinstance(b, SChoice) and op not in ("==", "!="):
        return choice([(c, compare(M, st, op, a, v)) for c, v in b.alts])
    return _compare(M, st, op, a, b)


def contains(M, st, c, x):
    if isinstance(x, SChoice):
        return choice([(g, contains(M, st, c, v)) for g, v in x.alts])
    if isinstance(c, SChoice):
        return contains(M, st, resolve(M, st, c), x)
    if isinstance(c, Ref):
        h = st.heap[c.id]
        if isinstance(h, HOptDict):
            return sbool(h.entries[x][0]) if x in h.entries else False
        if isinstance(h, HOptSet):
            r = FALSE
            for v, g in h.elems:
                e = M.eq(st, v, x)
                if e is not False:
                    r = z3.Or(r, z3.And(g, zb(e)))
            return sbool(r)
    return _contains(M, st, c, x)


def to_str(M, st, v):
    if isinstance(v, SChoice):
        return choice([(g, to_str(M, st, x)) for g, x in v.alts])
    if isinstance(v, SBool) and M.merging:
        return choice([(v.t, "True"), (z3.Not(v.t), "False")])
    return _to_str(M, st, v)


def binop(M, st, op, a, b):
    if isinstance(a, SChoice):
        a = resolve(M, st, a)
    if isinstance(b, SChoice):
        b = resolve(M, st, b)
    if op in ("|", "|=") and (_opt(st, a) or _opt(st, b)):
        r = a if op == "|=" else st.new(HOptSet(elems_of(st, a)))
        for v, g in elems_of(st, b):
            opt_add(M, st, r, v, g)
        return r
    return _binop(M, st, op, a, b)


def elems_of(st, r):
    h = st.heap[r.id]
    if isinstance(h, HOptSet):
        return list(h.elems)
    if isinstance(h, HSet) and not has_seg(h.items):
        return [(x, TRUE) for x in h.items]
    raise Unsupported("elements of a set")


def opt_add(M, st, r, x, g=TRUE):
    if isinstance(x, SChoice):
        for c, v in x.alts:
            opt_add(M, st, r, v, z3.simplify(z3.And(g, c)))
        return
    h = st.heap[r.id]
    if isinstance(h, HSet):
        h = HOptSet(elems_of(st, r))
        st.heap[r.id] = h
        st.owned.add(r.id)
    h = st.mut(r)
    for k, (v, d) in enumerate(h.elems):
        if same(v, x):
            h.elems[k] = (v, z3.simplify(z3.Or(d, g)))
            return
    h.elems.append((x, g))


def set_add(M, st, r, x):
    if isinstance(st.heap[r.id], HOptSet) or M.merging and isinstance(x, (SStr, SChoice)) \
            and isinstance(st.heap[r.id], HSet) and not has_seg(st.heap[r.id].items):
        opt_add(M, st, r, x)
        return
    _set_add(M, st, r, x)


def opt_get(M, st, o, k, default):
    h = st.heap[o.id]
    if isinstance(k, (Sym, Ref)):
        raise Unsupported("key of an optional mapping")
    if k not in h.entries:
        return default
    g, v = h.entries[k]
    if z3.is_true(g):
        return v
    if isinstance(v, Ref) and isinstance(st.heap[v.id], HOptDict) and isinstance(default, Ref) and \
            isinstance(st.heap[default.id], HDict) and not st.heap[default.id].entries:
        return st.new(HOptDict({q: (z3.simplify(z3.And(g, g2)), w) for q, (g2, w) in st.heap[v.id].entries.items()}))
    return choice([(g, v), (z3.Not(g), default)])


def getitem(M, st, o, k):
    if isinstance(o, SChoice):
        return getitem(M, st, resolve(M, st, o), k)
    if isinstance(k, SChoice):
        return getitem(M, st, o, resolve(M, st, k))
    if isinstance(o, Ref) and isinstance(st.heap[o.id], HOptDict):
        h = st.heap[o.id]
        if k not in h.entries or not M.decide(st, h.entries[k][0]):
            raise PyRaise(KeyError, k)
        return h.entries[k][1]
    return _getitem(M, st, o, k)


def setitem(M, st, o, k, v):
    if isinstance(o, SChoice):
        o = resolve(M, st, o)
    if isinstance(o, Ref) and isinstance(st.heap[o.id], HOptDict):
        if isinstance(k, (Sym, Ref)):
            raise Unsupported("key of an optional mapping")
        st.mut(o).entries[k] = (TRUE, v)
        return
    return _setitem(M, st, o, k, v)


for _n, _h in (("compare", compare), ("contains", contains), ("to_str", to_str), ("binop", binop),
               ("getitem", getitem), ("setitem", setitem), ("set_add", set_add)):
    setattr(models, _n, _h)


def _meth(cls, name, h):
    old = METHODS.get((cls, name))

    def new(M, st, a, kw):
        r = h(M, st, a, kw)
        return old(M, st, a, kw) if r is NotImplemented else r
    METHODS[(cls, name)] = new


def _d_get(M, st, a, kw):
    if isinstance(a[0], Ref) and isinstance(st.heap[a[0].id], HOptDict):
        return opt_get(M, st, a[0], a[1], a[2] if len(a) > 2 else None)
    return NotImplemented


def _s_add(M, st, a, kw):
    if isinstance(a[0], Ref):
        set_add(M, st, a[0], a[1])
        return None
    return NotImplemented


def _s_update(M, st, a, kw):
    if any(_opt(st, x) for x in a):
        for b in a[1:]:
            for v, g in elems_of(st, b):
                opt_add(M, st, a[0], v, g)
        return None
    return NotImplemented


_meth(dict, "get", _d_get)
_meth(set, "add", _s_add)
_meth(set, "update", _s_update)
for _n in ("setdefault", "pop", "keys", "items", "values", "update", "copy"):
    def _no(M, st, a, kw):
        if _opt(st, a[0]):
            raise Unsupported("method of an optional mapping")
        return NotImplemented
    _meth(dict, _n, _no)


def _case_method(name):
    def h(M, st, a, kw):
        if isinstance(a[0], SChoice):
            return choice([(c, METHODS[(str, name)](M, st, [v] + a[1:], kw)) for c, v in a[0].alts])
        return NotImplemented
    return h


for _n in ("upper", "lower", "casefold", "strip", "title", "capitalize"):
    _meth(str, _n, _case_method(_n))


@wrap(Machine, "getattr_")
def _getattr(self, old, st, v, name):
    if isinstance(v, SChoice):
        if all(isinstance(x, (str, SStr)) for _, x in v.alts) and name in ("upper", "lower", "casefold", "strip",
                                                                            "title", "capitalize"):
            return Bound(NativeMethod(str, name), v)
        return old(self, st, resolve(self, st, v), name)
    return old(self, st, v, name)


@wrap(Machine, "call_")
def _call(self, old, st, fn, args, kw, onret=None):
    if isinstance(fn, SChoice):
        fn = resolve(self, st, fn)
    return old(self, st, fn, args, kw, onret)


@wrap(Machine, "native")
def _native(self, old, st, v):
    if isinstance(v, SChoice):
        v = resolve(self, st, v)
    return old(self, st, v)


@wrap(Machine, "cls_of")
def _cls_of(self, old, st, v):
    if isinstance(v, SChoice):
        ks = {old(self, st, x) for _, x in v.alts}
        if len(ks) == 1:
            return ks.pop()
        return old(self, st, resolve(self, st, v))
    return old(self, st, v)


@wrap(Machine, "get_iter")
def _get_iter(self, old, st, v, onret=None):
    if isinstance(v, SChoice):
        v = resolve(self, st, v)
    return old(self, st, v, onret)


_old_sorted = FUNCS[sorted]


@fn(sorted)
def _sorted(M, st, a, kw):
    if not kw and isinstance(a[0], Ref) and (isinstance(st.heap[a[0].id], HOptSet) or M.merging and isinstance(
            st.heap[a[0].id], HSet)):
        es = elems_of(st, a[0])
        if all(isinstance(x, str) and z3.is_true(c) for x, c in es):
            return _old_sorted(M, st, [st.new(HList([x for x, _ in es]))], {})
        return SSorted(elems_of(st, a[0]))
    return _old_sorted(M, st, a, kw)


_old_deepcopy = FUNCS[_copymod.deepcopy]


def deep(M, st, v):
    if isinstance(v, Ref) and isinstance(st.heap[v.id], HOptDict):
        return st.new(HOptDict({k: (g, deep(M, st, x)) for k, (g, x) in st.heap[v.id].entries.items()}))
    if isinstance(v, SChoice):
        return SChoice([(c, deep(M, st, x)) for c, x in v.alts])
    return _old_deepcopy(M, st, [v], {})


FUNCS[_copymod.deepcopy] = lambda M, st, a, kw: deep(M, st, a[0])
_old_copy = FUNCS[_copymod.copy]
FUNCS[_copymod.copy] = lambda M, st, a, kw: st.new(HOptDict(st.heap[a[0].id].entries)) if _opt(st, a[0]) and isinstance(
    st.heap[a[0].id], HOptDict) else _old_copy(M, st, a, kw)
_old_bool = models.CLASSES[bool]
models.CLASSES[bool] = lambda M, st, a, kw: sbool(truth_term(M, st, a[0])) if a and (
    isinstance(a[0], SChoice) or _opt(st, a[0])) else _old_bool(M, st, a, kw)


# ------------------------------------------------------------------------------------------------ comparison of results
@wrap(summ.Cmp, "val")
def _cmp(self, old, a, b):
    if isinstance(a, SSorted) and isinstance(b, SSorted):
        return cmp_elems(self, a.elems, b.elems)
    if isinstance(a, Ref) and isinstance(b, Ref):
        x, y = self.sa.heap[a.id], self.sb.heap[b.id]
        if isinstance(x, HOptDict) and isinstance(y, HOptDict):
            for k in {**x.entries, **y.entries}:
                g, v = x.entries.get(k, (FALSE, None))
                h, w = y.entries.get(k, (FALSE, None))
                if not self.prove(g == h):
                    self.fail(f"presence of {k!r}: {g} is not {h}")
                if k in x.entries and k in y.entries and not (z3.is_false(g)):
                    self.val(v, w)
            return
    if isinstance(a, SChoice) or isinstance(b, SChoice):
        if same(a, b):
            return
        xs = a.alts if isinstance(a, SChoice) else ((TRUE, a),)
        ys = b.alts if isinstance(b, SChoice) else ((TRUE, b),)
        for c, x in xs:
            for d, y in ys:
                g = z3.And(c, d)
                if self.prove(z3.Not(g)):
                    continue
                old_st = self.st
                self.st = old_st.clone()
                self.st.add(g)
                try:
                    self.val(x, y)
                finally:
                    self.st = old_st
        return
    return old(self, a, b)


def cmp_elems(self, xs, ys):
    for p, q in ((xs, ys), (ys, xs)):
        for v, g in p:
            other = z3.Or([h for w, h in q if same(v, w)] + [FALSE])
            if not self.prove(z3.Implies(g, other)):
                self.fail(f"{v!r} is {'not called for' if p is xs else 'missing'} when {z3.simplify(z3.And(g, z3.Not(other)))}")


# ------------------------------------------------------------------------------------------------ joining
def ipdom(info, n):
    """Index of the immediate post-dominator (exception edges ignored), 'ret' for the frame's return."""
    if not hasattr(info, "_ipdom"):
        N = len(info.ins)
        succ = []
        for k, i in enumerate(info.ins):
            s = [x for x in info.succ(k)]
            h = info.handler(i.offset)
            if h is not None and s and s[-1] == info.at[h.target]:
                s = s[:-1]
            if i.opname in ("RETURN_VALUE", "RETURN_CONST"):
                s = [N]
            succ.append(s)
        succ.append([])
        reach = {N}
        ch = True
        while ch:
            ch = False
            for k in range(N - 1, -1, -1):
                if k not in reach and any(s in reach for s in succ[k]):
                    reach.add(k)
                    ch = True
        pd = {k: set(reach) for k in reach}
        pd[N] = {N}
        ch = True
        while ch:
            ch = False
            for k in sorted(reach, reverse=True):
                if k == N:
                    continue
                ss = [pd[s] for s in succ[k] if s in reach]
                new = {k} | set.intersection(*ss)
                if new != pd[k]:
                    pd[k] = new
                    ch = True
        info._ipdom = {}
        for k in reach:
            rest = pd[k] - {k}
            for m in rest:
                if pd[m] == rest:
                    info._ipdom[k] = m
        info._N = N
    r = info._ipdom.get(n)
    return "ret" if r == info._N else r


def try_merge(M, st, cond):
    """States after the join of both arms, or None."""
    f = st.frames[-1]
    n = f.pc
    j = ipdom(f.info, n)
    if j is None:
        return None
    depth = len(st.frames)
    if j == "ret" and (f.onret is not None or f.gen is not None or depth < 3):
        return None

    def leave(s):
        return len(s.frames) < depth or j != "ret" and len(s.frames) == depth and s.frames[-1].pc == j \
            and s.frames[-1].code is f.code

    outs, joined, rest = [], [], []
    for arm in M.fork(st.clone(), cond):
        o, arr, esc = M.explore([arm], None, leave)
        outs += o
        for s in esc:
            (joined if (len(s.frames) == depth if j != "ret" else len(s.frames) == depth - 1) else rest).append(s)
    if len(joined) > 1:
        done = []
        for s in joined:
            for k, d in enumerate(done):
                m = merge_states(M, st, d, s)
                if m is not None:
                    done[k] = m
                    break
            else:
                done.append(s)
        joined = done
    for s in joined:
        s.skiphead = False
    return outs, joined + rest


def merge_states(M, base, a, b):
    if len(a.frames) != len(b.frames):
        return None
    for x, y in zip(a.frames, b.frames):
        if x.pc != y.pc or x.code is not y.code or len(x.stack) != len(y.stack):
            return None
    n = len(base.pc)
    if any(not p.eq(q) for p, q in zip(a.pc[:n], base.pc)) or any(not p.eq(q) for p, q in zip(b.pc[:n], base.pc)):
        M.log("  no join: path conditions")
        return None
    ca = z3.And(a.pc[n:]) if len(a.pc) > n else TRUE
    cb = z3.And(b.pc[n:]) if len(b.pc) > n else TRUE
    ca, cb = z3.simplify(ca), z3.simplify(cb)
    m = a.clone()
    m.owned = set()
    m.pc = list(base.pc)
    m.add(z3.simplify(z3.Or(ca, cb)))
    m.heap = Heap({**b.heap, **a.heap})
    m.lifted = {**b.lifted, **a.lifted}
    J = Join(M, base, a, b, m, ca, cb)
    try:
        if a.exc != b.exc or set(a.ghost) != set(b.ghost) or any(a.ghost[k] is not b.ghost[k] and
                                                                 a.ghost[k] != b.ghost[k] for k in a.ghost):
            raise NoMerge("ghost state")
        from .summ import reach
        used = set(reach(a)[0]) | set(reach(b)[0])
        for oid in base.heap:
            x, y = a.heap.get(oid), b.heap.get(oid)
            if x is not y and oid in used:
                m.heap[oid] = J.obj(x, y, base.heap[oid])
        for k, (fa, fb, fm) in enumerate(zip(a.frames, b.frames, m.frames)):
            fm.stack = [J.val(x, y) for x, y in zip(fa.stack, fb.stack)]
            live = fa.info.live_at(fa.pc) if k else ()
            loc = {}
            for nm in {**fa.loc, **fb.loc}:
                if nm in fa.loc and nm in fb.loc:
                    try:
                        loc[nm] = J.val(fa.loc[nm], fb.loc[nm])
                    except NoMerge:
                        if nm in live:
                            raise
                elif nm in live:
                    raise NoMerge(f"{nm} unbound in one arm")
            fm.loc = loc
    except NoMerge as e:
        if M.verbose:
            M.log(f"  no join at {a.frames[-1].code.co_name}:{mc._line(a.frames[-1])}: {e}")
        return None
    return m


class Join:
    def __init__(self, M, base, a, b, m, ca, cb):
        self.M, self.base, self.a, self.b, self.m, self.ca, self.cb = M, base, a, b, m, ca, cb
        self.memo = {}

    def val(self, x, y):
        if same(x, y):
            return x
        if isinstance(x, Ref) and isinstance(y, Ref):
            if (x.id, y.id) in self.memo:
                return self.memo[(x.id, y.id)]
            if x.id not in self.base.heap and y.id not in self.base.heap:
                ox, oy = self.a.heap[x.id], self.b.heap[y.id]
                if type(ox) is type(oy):
                    try:
                        o = self.obj(ox, oy, None)
                    except NoMerge:
                        pass
                    else:
                        r = self.m.new(o)
                        self.memo[(x.id, y.id)] = r
                        return r
            return SChoice([(self.ca, x), (self.cb, y)])
        if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items) and not has_seg(x.items) \
                and not has_seg(y.items):
            return Tup([self.val(p, q) for p, q in zip(x.items, y.items)])
        if isinstance(x, Seg) or isinstance(y, Seg) or x is mc.NULL or y is mc.NULL:
            raise NoMerge("segments")
        return choice([(self.ca, x), (self.cb, y)])

    def obj(self, x, y, base):
        if x is None or y is None or type(x) is not type(y):
            if isinstance(x, (HSet, HOptSet)) and isinstance(y, (HSet, HOptSet)):
                return self.sets(x, y)
            raise NoMerge("object kinds")
        if isinstance(x, HList):
            p = 0
            while p < min(len(x.items), len(y.items)) and same(x.items[p], y.items[p]):
                p += 1
            if len(x.items) == len(y.items) and not has_seg(x.items[p:]) and not has_seg(y.items[p:]):
                return HList(list(x.items[:p]) + [self.val(u, v) for u, v in zip(x.items[p:], y.items[p:])])
            out = list(x.items[:p])
            for items, st, c in ((x.items[p:], self.a, self.ca), (y.items[p:], self.b, self.cb)):
                for v in items:
                    if isinstance(v, Seg):
                        lo, hi = zint(v.lo), zint(v.hi)
                        out.append(Seg(v.var, v.lo, z3.simplify(z3.If(c, hi, lo)), v.body, v.facts))
                        continue
                    out.append(Seg(fresh_int("o"), 0, z3.If(c, z3.IntVal(1), z3.IntVal(0)), [freeze(st, v)]))
            return HList(out)
        if isinstance(x, HDict):
            if has_seg(x.entries) or has_seg(y.entries) or len(x.entries) != len(y.entries) or \
                    any(not same(p.k, q.k) for p, q in zip(x.entries, y.entries)):
                raise NoMerge("mapping keys")
            return HDict([KV(p.k, self.val(p.v, q.v)) for p, q in zip(x.entries, y.entries)], x.cls, x.factory)
        if isinstance(x, (HSet, HOptSet)):
            return self.sets(x, y)
        if isinstance(x, HOptDict):
            out = {}
            for k in {**x.entries, **y.entries}:
                g, v = x.entries.get(k, (FALSE, None))
                h, w = y.entries.get(k, (FALSE, None))
                gg = z3.simplify(z3.Or(z3.And(self.ca, g), z3.And(self.cb, h)))
                out[k] = (gg, v if k not in y.entries else w if k not in x.entries else self.val(v, w))
            return HOptDict(out)
        if isinstance(x, HInst):
            if x.cls is not y.cls or set(x.attrs) != set(y.attrs):
                raise NoMerge("attributes")
            n = x.copy()
            n.attrs = {k: self.val(v, y.attrs[k]) for k, v in x.attrs.items()}
            return n
        if isinstance(x, HCell):
            n = x.copy()
            n.v = self.val(x.v, y.v)
            return n
        if isinstance(x, HIter):
            if x.cur == y.cur and len(x.chunks) == len(y.chunks) and all(same(p, q) for p, q in zip(x.chunks, y.chunks)):
                return x
        raise NoMerge(type(x).__name__)

    def sets(self, x, y):
        ex = list(x.elems) if isinstance(x, HOptSet) else [(v, TRUE) for v in x.items]
        ey = list(y.elems) if isinstance(y, HOptSet) else [(v, TRUE) for v in y.items]
        out = []
        for es, c in ((ex, self.ca), (ey, self.cb)):
            for v, g in es:
                if isinstance(v, Seg):
                    raise NoMerge("segments")
                for k, (w, d) in enumerate(out):
                    if same(v, w):
                        out[k] = (w, z3.simplify(z3.Or(d, z3.And(c, g))))
                        break
                else:
                    out.append((v, z3.simplify(z3.And(c, g))))
        return HOptSet(out)
