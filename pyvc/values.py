"""Values, sequence segments, heap objects and substitution for the bytecode verifier.

Concrete immutable Python objects stand for themselves.  Everything symbolic is one of the classes below.
A *chunk list* is a Python list/tuple whose members are either values or ``Seg`` (a run of elements indexed
by an integer variable over a symbolic range).
"""
from __future__ import annotations
import itertools
import z3

FltS = z3.DeclareSort("Flt")
ValS = z3.DeclareSort("Val")
StrS = z3.StringSort()
IntS = z3.IntSort()

_ctr = itertools.count(1)


def fresh_int(name="k"):
    return z3.Int(f"{name}!{next(_ctr)}")


class Unsupported(Exception):
    """The verifier cannot interpret this; the obligation is undecided (never a violation)."""


class Skip(Exception):
    """The drawn case does not meet the precondition."""


class PyRaise(Exception):
    """A Python exception raised by a modelled operation."""

    def __init__(self, cls, *args):
        self.cls, self.eargs = cls, args
        super().__init__(cls, args)


class ForkOn(Exception):
    def __init__(self, cond):
        self.cond = cond


class NULL_:
    def __repr__(self):
        return "NULL"


NULL = NULL_()


class Sym:
    __slots__ = ()


class SInt(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SInt({self.t})"


class Off(SInt):
    """Offset of a unit boundary of a known string (start or end of a match)."""
    __slots__ = ("s", "cut")

    def __init__(self, t, s, cut):
        self.t, self.s, self.cut = t, s, cut


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SBool({self.t})"


class SFlt(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SFlt({self.t})"


AnyS = z3.DeclareSort("Any")


class SVal(Sym):
    """Opaque value; pytype is the Python class it reports (or None: unknown)."""
    __slots__ = ("t", "pytype", "truthy")

    def __init__(self, t, pytype=object, truthy=None):
        self.t, self.pytype, self.truthy = t, pytype, truthy

    def __repr__(self):
        return f"SVal({self.t})"


class SFlags(Sym):
    """A member of a Flag class, with a truth value for each single bit."""
    __slots__ = ("cls", "bits")

    def __init__(self, cls, bits):
        self.cls, self.bits = cls, bits

    def __repr__(self):
        return f"SFlags({self.cls.__name__})"

    def has(self, other):
        """All bits of the concrete member `other` are set."""
        return z3.simplify(z3.And([b for v, b in self.bits.items() if v & other.value] + [z3.BoolVal(True)]))


class Atom:
    """A printed field: an unknown member of a regular language (``cls``), with optional numeric meaning."""
    __slots__ = ("t", "cls", "num")

    def __init__(self, t, cls, num=None):
        self.t, self.cls, self.num = t, cls, num

    def __repr__(self):
        return f"<{self.t}:{getattr(self.cls, 'name', self.cls)}>"


class SStr(Sym):
    __slots__ = ("pieces",)

    def __init__(self, pieces):
        self.pieces = tuple(pieces)

    def __repr__(self):
        return "SStr(" + "".join(p if isinstance(p, str) else repr(p) for p in self.pieces) + ")"


ITOA = z3.Function("ITOA", IntS, StrS)


def mkstr(pieces):
    """Normalised string value (a plain str when nothing is symbolic)."""
    out = []
    for p in pieces:
        if not isinstance(p, str) and p.num is not None and z3.is_app(p.t) and p.t.decl().eq(ITOA) \
                and z3.is_int_value(p.t.arg(0)):
            p = str(p.t.arg(0).as_long())
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        else:
            out.append(p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(out)


def pieces_of(s):
    if isinstance(s, str):
        return (s,) if s else ()
    return s.pieces


class JoinStr(Sym):
    """sep.join(chunks) where chunks holds segments."""
    __slots__ = ("sep", "chunks")

    def __init__(self, sep, chunks):
        self.sep, self.chunks = sep, tuple(chunks)

    def __repr__(self):
        return f"Join({self.sep!r},{list(self.chunks)})"


class SBytes(Sym):
    """Symbolic bytes: opaque payload term, with a typed content (chunk list) once known."""
    __slots__ = ("t", "kind", "chunks", "nbytes")

    def __init__(self, t, kind=None, chunks=None, nbytes=None):
        self.t, self.kind, self.chunks, self.nbytes = t, kind, chunks, nbytes

    def __repr__(self):
        return f"SBytes({self.t},{self.kind})"


class SPos(SInt):
    """A position in a tuple with nested repetitions: (elements before the cursor) + off."""
    __slots__ = ("uid", "chunks", "cur", "off", "_t")

    def __init__(self, uid, chunks, cur, off):
        self.uid, self.chunks, self.cur, self.off, self._t = uid, chunks, cur, off, None

    @property
    def t(self):
        if self._t is None:
            self._t = zint(tadd(count_before(self.chunks, self.cur), self.off))
        return self._t

    def __repr__(self):
        return f"SPos({self.cur}{self.off:+d})"


def count_before(chunks, cur):
    n = 0
    cs = chunks
    for i, k in cur:
        for c in cs[:i]:
            n = tadd(n, chunk_len(c))
        if k is None:
            return n
        s = cs[i]
        n = tadd(n, chunk_len(Seg(s.var, s.lo, k, s.body)))
        cs = subst_chunks(s.body, [(s.var, zint(k))])
    return n


class Tup:
    __slots__ = ("items", "uid")

    def __init__(self, items, uid=None):
        self.items = tuple(items)
        self.uid = uid

    def __repr__(self):
        return "Tup" + repr(self.items)


class Seg:
    """Elements body[0..m) for each var in [lo, hi)."""
    __slots__ = ("var", "lo", "hi", "body", "facts")

    def __init__(self, var, lo, hi, body, facts=None):
        self.var, self.lo, self.hi, self.body, self.facts = var, lo, hi, tuple(body), facts

    def __repr__(self):
        return f"Seg({self.var} in [{self.lo},{self.hi}): {list(self.body)})"


class KV:
    """A dict entry inside chunk lists of dictionaries."""
    __slots__ = ("k", "v")

    def __init__(self, k, v):
        self.k, self.v = k, v

    def __repr__(self):
        return f"{self.k}:{self.v}"


class Frozen:
    """Immutable image of a heap object; ``alias``: the object is referred to more than once inside the image."""
    __slots__ = ("alias",)

    def is_alias(self):
        return getattr(self, "alias", False)

    def like(self, *others):
        if any(o.is_alias() for o in others):
            self.alias = True
        return self


class FList(Frozen):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"F{list(self.items)}"


class FDict(Frozen):
    __slots__ = ("entries", "cls", "factory")

    def __init__(self, entries, cls=dict, factory=None):
        self.entries, self.cls, self.factory = tuple(entries), cls, factory

    def __repr__(self):
        return f"F{{{list(self.entries)}}}"


class FSet(Frozen):
    __slots__ = ("items", "cls")

    def __init__(self, items, cls=set):
        self.items, self.cls = tuple(items), cls


class FInst(Frozen):
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, dict(attrs)


class Ref:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f"@{self.id}"


class Bound:
    """Bound method (python function / native name)."""
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def __repr__(self):
        return f"Bound({self.fn},{self.self})"


class NativeMethod:
    __slots__ = ("pytype", "name")

    def __init__(self, pytype, name):
        self.pytype, self.name = pytype, name

    def __repr__(self):
        return f"NM({self.pytype.__name__}.{self.name})"


class Func:
    """Function object created while executing."""
    __slots__ = ("code", "globals", "defaults", "kwdefaults", "closure", "name", "attrs", "real")

    def __init__(self, code, globals, defaults, kwdefaults, closure, name, real=None):
        self.code, self.globals, self.defaults, self.kwdefaults, self.closure, self.name = \
            code, globals, defaults, kwdefaults, closure, name
        self.real = real

    def __repr__(self):
        return f"Func({self.name})"


class Partial:
    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class SSlice:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class RMatch:
    """Result of a decided regular expression match on a symbolic string."""
    __slots__ = ("pattern", "string", "groups", "spans")

    def __init__(self, pattern, string, groups):
        self.pattern, self.string, self.groups = pattern, string, tuple(groups)  # groups[0] whole


# ---------------------------------------------------------------- heap objects
class HObj:
    __slots__ = ("origin", "ro")

    def copy(self):
        n = object.__new__(type(self))
        for c in type(self).__mro__:
            for s in getattr(c, "__slots__", ()):
                if hasattr(self, s):
                    v = getattr(self, s)
                    if isinstance(v, list):
                        v = list(v)
                    elif isinstance(v, dict):
                        v = dict(v)
                    setattr(n, s, v)
        return n


class HList(HObj):
    __slots__ = ("items",)

    def __init__(self, items=()):
        self.items = list(items)
        self.origin = None


class HDict(HObj):
    __slots__ = ("entries", "cls", "factory")

    def __init__(self, entries=(), cls=dict, factory=None):
        self.entries = list(entries)
        self.cls, self.factory = cls, factory
        self.origin = None


class HSet(HObj):
    __slots__ = ("items", "cls")

    def __init__(self, items=(), cls=set):
        self.items = list(items)
        self.cls = cls
        self.origin = None


class HInst(HObj):
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, dict(attrs or {})
        self.origin = None


class HCell(HObj):
    __slots__ = ("v",)

    def __init__(self, v=NULL):
        self.v = v
        self.origin = None


class HGen(HObj):
    __slots__ = ("frame", "state")  # state: 'new','susp','run','done'

    def __init__(self, frame):
        self.frame, self.state = frame, "new"
        self.origin = None

    def copy(self):
        n = HGen(self.frame.clone() if self.frame is not None else None)
        n.state = self.state
        return n


class HIter(HObj):
    """Iterator over a snapshot chunk list; owner is the heap object it came from (for write-back)."""
    __slots__ = ("chunks", "cur", "owner", "kind", "ownertok")

    def __init__(self, chunks, owner=None, kind="list"):
        self.chunks = tuple(chunks)
        self.cur = ((0, None),)
        self.owner, self.kind = owner, kind
        self.origin = None


class HFile(HObj):
    """Text file over a chunk list of lines.  cur: cursor; stamp of closedness, name."""
    __slots__ = ("chunks", "cur", "name", "closed", "pycls", "opened", "mode", "layout")

    def __init__(self, chunks, name=None, pycls=None):
        self.chunks = tuple(chunks)
        self.cur = ((0, None),)
        self.name, self.closed, self.pycls = name, False, pycls
        self.origin = None


class Tell:
    """Opaque result of tell(): a cursor of a given file."""
    __slots__ = ("fid", "cur")

    def __init__(self, fid, cur):
        self.fid, self.cur = fid, cur


# ---------------------------------------------------------------- terms
def zint(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if z3.is_expr(x):
        return x
    raise Unsupported(f"zint {x!r}")


def simp_int(t):
    """int value from a z3 Int term (python int when it is a numeral)."""
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def subst_term(t, pairs):
    r = z3.substitute(t, *pairs)
    if r.eq(t):
        return t
    return z3.simplify(r) if r.sort() == IntS else z3_simp_args(r)


def z3_simp_args(t):
    """Simplify integer arguments inside uninterpreted applications."""
    if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        args = [z3.simplify(a) if a.sort() == IntS else z3_simp_args(a) for a in t.children()]
        return t.decl()(*args)
    return t


def subst(v, pairs):
    """Substitute z3 Int variables in a value tree."""
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes)):
        return v
    if isinstance(v, SPos):
        return SPos(v.uid, subst_chunks(v.chunks, pairs), subst_cur(v.cur, pairs), v.off)
    if isinstance(v, SInt):
        return simp_int(subst_term(v.t, pairs))
    if isinstance(v, SBool):
        t = z3.simplify(z3.substitute(v.t, *pairs))
        return True if z3.is_true(t) else False if z3.is_false(t) else SBool(t)
    if isinstance(v, SFlt):
        return SFlt(subst_term(v.t, pairs))
    if isinstance(v, SVal):
        return SVal(subst_term(v.t, pairs), v.pytype, v.truthy)
    if isinstance(v, SStr):
        return mkstr([p if isinstance(p, str) else subst_atom(p, pairs) for p in v.pieces])
    if isinstance(v, Atom):
        return subst_atom(v, pairs)
    if isinstance(v, Tup):
        return Tup(subst_chunks(v.items, pairs), v.uid)
    if isinstance(v, Seg):
        return Seg(v.var, subst_bound(v.lo, pairs), subst_bound(v.hi, pairs), subst_chunks(v.body, pairs),
                   _subst_facts(v, pairs))
    if isinstance(v, KV):
        return KV(subst(v.k, pairs), subst(v.v, pairs))
    if isinstance(v, FList):
        return FList(subst_chunks(v.items, pairs)).like(v)
    if isinstance(v, FDict):
        return FDict(subst_chunks(v.entries, pairs), v.cls, v.factory).like(v)
    if isinstance(v, FSet):
        return FSet(subst_chunks(v.items, pairs), v.cls).like(v)
    if isinstance(v, FInst):
        return FInst(v.cls, {k: subst(x, pairs) for k, x in v.attrs.items()}).like(v)
    if isinstance(v, SBytes):
        return SBytes(None if v.t is None else subst_term(v.t, pairs), v.kind,
                      None if v.chunks is None else subst_chunks(v.chunks, pairs),
                      None if v.nbytes is None else subst_bound(v.nbytes, pairs))
    if isinstance(v, JoinStr):
        return JoinStr(v.sep, subst_chunks(v.chunks, pairs))
    if isinstance(v, Tell):
        return Tell(v.fid, subst_cur(v.cur, pairs))
    if isinstance(v, RMatch):
        return RMatch(v.pattern, subst(v.string, pairs), [subst(g, pairs) for g in v.groups])
    if isinstance(v, Bound):
        return Bound(v.fn, subst(v.self, pairs))
    return v


def _subst_facts(v, pairs):
    if v.facts is None:
        return None
    old = v.facts
    return lambda k: [z3.substitute(f, *pairs) for f in old(k)]


def subst_bound(b, pairs):
    if isinstance(b, int):
        return b
    r = z3.simplify(z3.substitute(b, *pairs))
    return r.as_long() if z3.is_int_value(r) else r


def subst_chunks(cs, pairs):
    return tuple(subst(c, pairs) for c in cs)


def subst_atom(a, pairs):
    return Atom(subst_term(a.t, pairs), a.cls, None if a.num is None else subst(a.num, pairs))


def subst_cur(cur, pairs):
    return tuple((i, None if k is None else subst_bound(k, pairs)) for i, k in cur)


def seg_at(seg, k):
    """Body of seg at index k (tuple of chunks)."""
    return subst_chunks(seg.body, [(seg.var, zint(k))])


def tadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    r = z3.simplify(zint(a) + zint(b))
    return r.as_long() if z3.is_int_value(r) else r


def tsub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    r = z3.simplify(zint(a) - zint(b))
    return r.as_long() if z3.is_int_value(r) else r


def tmul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    r = z3.simplify(zint(a) * zint(b))
    return r.as_long() if z3.is_int_value(r) else r


def chunk_len(c):
    if isinstance(c, Seg):
        n = chunks_len(c.body)
        if not isinstance(n, int) and occurs(n, c.var):
            return seg_sum(c, n)
        return tmul(tsub(c.hi, c.lo), n)
    return 1


SUM = z3.Function("SUM", z3.ArraySort(IntS, IntS), IntS, IntS, IntS)
SUMVAR = z3.Int("sum!i")


def seg_sum(c, n):
    """sum of n(var) for lo <= var < hi"""
    if isinstance(c.lo, int) and isinstance(c.hi, int) and c.hi - c.lo < 4:
        r = 0
        for k in range(c.lo, c.hi):
            r = tadd(r, z3.substitute(n, (c.var, z3.IntVal(k))))
        return r
    return mk_sum(z3.substitute(n, (c.var, SUMVAR)), c.lo, c.hi)


def mk_sum(body, lo, hi):
    """sum of body(sum!i) for lo <= sum!i < hi; linear parts are taken apart."""
    c, parts = linear_parts(body)
    r = tmul(c, tsub(hi, lo)) if c else 0
    for k, x in parts:
        if occurs(x, SUMVAR):
            d = _index_shift(x)
            if d:
                x = z3.simplify(z3.substitute(x, (SUMVAR, SUMVAR - d)))
                t = SUM(z3.Lambda([SUMVAR], x), zint(tadd(lo, d)), zint(tadd(hi, d)))
                r = tadd(r, tmul(k, t))
                continue
            t = SUM(z3.Lambda([SUMVAR], x), zint(lo), zint(hi))
            r = tadd(r, tmul(k, t))
        else:
            r = tadd(r, tmul(tmul(k, x), tsub(hi, lo)))
    return r


def _index_shift(t):
    """c when the first indexed term of a summand is f(sum!i + c)."""
    if z3.is_add(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(1).eq(SUMVAR):
        return t.arg(0).as_long()
    for c in t.children():
        if c.eq(SUMVAR):
            return 0
        if occurs(c, SUMVAR):
            return _index_shift(c)
    return 0


def linear_parts(t):
    if isinstance(t, int):
        return t, []
    t = z3.simplify(t)
    parts = t.children() if z3.is_add(t) else [t]
    c, out = 0, []
    for x in parts:
        if z3.is_int_value(x):
            c += x.as_long()
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
            out.append((x.arg(0).as_long(), x.arg(1)))
        else:
            out.append((1, x))
    return c, out


def sums_in(t, out, seen):
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_quantifier(t):
        return
    if z3.is_app(t) and t.decl().eq(SUM):
        out.append(t)
    for c in t.children():
        sums_in(c, out, seen)


def sum_axioms(terms):
    """Instances of the defining equations of SUM for the sums in terms."""
    sums, seen = [], set()
    for t in terms:
        sums_in(t, sums, seen)
    ax = []
    for n, x in enumerate(sums):
        f, lo, hi = x.children()
        ax.append(z3.Implies(hi <= lo, x == 0))
        for y in sums:
            if y is x or not y.arg(0).eq(f) or not y.arg(1).eq(lo):
                continue
            if z3.is_quantifier(f):
                last = z3.substitute_vars(f.body(), hi)
                ax.append(z3.Implies(z3.And(y.arg(2) == hi + 1, hi >= lo), y == x + last))
        if z3.is_quantifier(f):
            n = tsub(hi, lo)
            if isinstance(n, int) and 0 < n <= 6:
                ax.append(x == z3.Sum([z3.substitute_vars(f.body(), lo + i) for i in range(n)]))
            else:
                ax.append(z3.Implies(hi == lo + 1, x == z3.substitute_vars(f.body(), lo)))
    return ax


def occurs(t, var):
    if t.eq(var):
        return True
    return any(occurs(c, var) for c in t.children())


def nested(cs):
    return any(isinstance(c, Seg) and any(isinstance(b, Seg) for b in c.body) for c in cs)


def chunks_len(cs):
    n = 0
    for c in cs:
        n = tadd(n, chunk_len(c))
    return n


def as_int(t):
    """Python int / SInt from python int or z3 term."""
    return t if isinstance(t, int) else simp_int(t)


def has_seg(cs):
    return any(isinstance(c, Seg) for c in cs)


CONCRETE = (type(None), bool, int, float, complex, str, bytes, type(Ellipsis))
