"""Document contracts: one specification text read in two ways.

``SymCtx`` builds the symbolic document (all field texts, all repetition counts) and the expected value the
verifier compares with; ``RndCtx`` draws one concrete document from the same specification for replay on the
real code under CPython.
"""
from __future__ import annotations
import copy
import random
import re
import re._parser as sre
import re._constants as sc
import string
import struct

import z3

from . import offsets, strs
from .rx import Lex, WS0, WS1
from .values import *

# ------------------------------------------------------------------------------------------------ lexical classes
def _at_zero(f):
    """Drawn numbers are zero now and then."""
    def draw(r):
        t = f(r)
        return re.sub(r"\d", "0", t) if r.random() < .06 else t
    return draw


DIRTXT = Lex("DIRTXT", r"/?[A-Za-z0-9_]+(?:/[A-Za-z0-9_]+)*")
FLT = Lex("FLT", r"-?\d+\.\d+", _at_zero(lambda r: f"{r.uniform(-99, 99):.{r.choice([2, 6, 8])}f}"))
UFLT = Lex("UFLT", r"\d+\.\d+", _at_zero(lambda r: f"{r.uniform(0, 99):.{r.choice([2, 6])}f}"))
EFLT = Lex("EFLT", r"-?\d+\.\d+[Ee][+-](?:\d{1,2}|[012]\d\d)",
           _at_zero(lambda r: f"{r.uniform(-9, 9):.{r.choice([4, 8])}{r.choice('eE')}}"))
FLTX = Lex("FLTX", r"-?\d+\.\d+([Ee][+-](?:\d{1,2}|[012]\d\d))?",
           _at_zero(lambda r: (f"{r.uniform(-9, 9):.5e}" if r.random() < .5 else f"{r.uniform(-99, 99):.6f}")))
UNUM = Lex("UNUM", r"\d{1,12}(\.\d{1,12})?", _at_zero(lambda r: r.choice([str(r.randrange(0, 4000)), f"{r.uniform(0, 400):.3f}"])))
INT = Lex("INT", r"\d+", lambda r: str(r.choice([r.randrange(0, 10), r.randrange(10, 99), r.randrange(100, 9999)])))
SINT = Lex("SINT", r"-?\d+", _at_zero(lambda r: str(r.randrange(-999, 999))))
SPEC = Lex("SPEC", r"[A-Z][a-z]?", lambda r: r.choice(["H", "He", "C", "N", "O", "Si", "Fe", "Cu", "U", "K", "V"]))
WORD = Lex("WORD", r"[A-Za-z][A-Za-z]*", lambda r: "".join(r.choice(string.ascii_letters) for _ in range(r.randrange(1, 9))))
LABEL = Lex("LABEL", r"[A-Za-z][A-Za-z0-9_]*", lambda r: r.choice(string.ascii_letters) + "".join(
    r.choice(string.ascii_letters + string.digits + "_") for _ in range(r.randrange(0, 8))))


def random_member(pattern, rng, maxrep=3):
    """A random member of a (plain) regular expression."""
    def items(tree):
        return "".join(one(op, av) for op, av in tree)

    def charset(av):
        neg = False
        out = set()
        alpha = [chr(i) for i in range(32, 127)]
        for op, a in av:
            if op is sc.NEGATE:
                neg = True
            elif op is sc.LITERAL:
                out.add(chr(a))
            elif op is sc.RANGE:
                out |= {chr(i) for i in range(a[0], min(a[1], 0x17f) + 1)}
            elif op is sc.CATEGORY:
                out |= {c for c in alpha if re.match({sc.CATEGORY_DIGIT: r"\d", sc.CATEGORY_WORD: r"\w",
                                                      sc.CATEGORY_SPACE: r"\s", sc.CATEGORY_NOT_SPACE: r"\S",
                                                      sc.CATEGORY_NOT_DIGIT: r"\D"}[a], c)}
        if neg:
            out = set(alpha) - out
        return sorted(out)

    def one(op, av):
        if op is sc.LITERAL:
            return chr(av)
        if op is sc.NOT_LITERAL:
            return rng.choice([c for c in string.printable[:90] if c != chr(av)])
        if op is sc.IN:
            return rng.choice(charset(av))
        if op is sc.ANY:
            return rng.choice(string.ascii_letters + string.digits + " .-+")
        if op is sc.BRANCH:
            return items(rng.choice(av[1]))
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            hi = min(hi, lo + maxrep)
            return "".join(items(sub) for _ in range(rng.randint(lo, hi)))
        if op is sc.SUBPATTERN:
            return items(av[3])
        if op is sc.AT:
            return ""
        if op is sc.CATEGORY:
            return rng.choice(charset([(op, av)]))
        raise ValueError(op)
    return items(sre.parse(pattern))


class SymCtx:
    symbolic = True

    def __init__(self, machine, st, variant=None):
        self.M, self.st = machine, st
        self.funs = {}
        self.collect = []
        self.outer = []
        self.counts = {}

    # -- names
    def _fun(self, name, idx, sort):
        idx = [zint(i) for i in idx]
        if not idx:
            return z3.Const(name, sort)
        key = (name, len(idx), sort)
        f = self.funs.get(key)
        if f is None:
            f = self.funs[key] = z3.Function(name, *([IntS] * len(idx)), sort)
        return f(*idx)

    def _fact(self, c):
        if self.collect:
            self.collect[-1].append(c)
        else:
            self.st.add(c)

    def count(self, name, *idx, lo=0, hi=None, sample=None):
        """A natural number unknown to the verifier."""
        t = self._fun(name, idx, IntS)
        self._fact(t >= lo)
        if hi is not None:
            self._fact(t <= hi)
        if not idx:
            self.counts[name] = t
        return SInt(t)

    def fld(self, lex, name, *idx, num=None):
        """A field text: an arbitrary member of the lexical class."""
        t = self._fun(name, idx, StrS)
        return SStr([Atom(t, lex, num)])

    def any(self, name, *idx, sample=None):
        """An arbitrary value (structure of any depth)."""
        return SVal(self._fun(name, idx, AnyS), None)

    def hyp(self, fn, spec, extra=(), kwextra=None):
        """Induction hypothesis: fn(v, *extra) is spec(v) for every value v inside the argument (finite depth).
        Returns the function v -> spec(v) for use in the postcondition."""
        F = z3.Function(f"{fn.__name__}*", AnyS, AnyS)
        M = self.M

        def handler(M, st, args, kw):
            if not args or not (isinstance(args[0], SVal) and args[0].t.sort() == AnyS):
                return NotImplemented
            got = list(args[1:])
            if len(got) != len(extra) or kw != dict(kwextra or {}):
                raise Unsupported(f"recursive call of {fn.__name__} with other arguments")
            for x, y in zip(got, extra):
                if not (x is y or _same_plain(st, x, y)):
                    raise Unsupported(f"recursive call of {fn.__name__} with other arguments")
            M.trusted.add(f"structural induction over finite values: {fn.__name__}")
            return SVal(F(args[0].t), None)
        M.contracts[fn] = handler
        return lambda v: SVal(F(v.t), None)

    def ifld(self, name, *idx, lex=INT):
        """Integer field with its value."""
        return self.fld(lex, name, *idx)

    def num(self, value, lex=INT):
        """Decimal text of an integer known to the verifier (a count)."""
        if isinstance(value, int):
            return str(value)
        return SStr([Atom(ITOA(zint(value)), lex, value)])

    @property
    def sp(self):
        return SStr([Atom(z3.String(f"ws!{next(values_ctr)}"), WS1)])

    @property
    def sp0(self):
        return SStr([Atom(z3.String(f"ws!{next(values_ctr)}"), WS0)])

    def line(self, *parts, nl="\n"):
        ps = []
        for p in parts:
            ps += pieces_of(p)
        return mkstr(ps + [nl])

    def cat(self, *parts):
        ps = []
        for p in parts:
            ps += pieces_of(p)
        return mkstr(ps)

    def rep(self, n, f, lo=0):
        i = fresh_int("i")
        self.collect.append([])
        body = f(SInt(i))
        facts = self.collect.pop()
        if isinstance(body, (Seg, KV)) or not isinstance(body, (list, tuple)):
            body = [body]
        body = flat(body)
        if not body:
            return []
        ff = None
        if facts:
            ff = lambda k: [z3.substitute(c, (i, zint(k))) for c in facts]
        hi = n if isinstance(n, int) else zint(n)
        return [Seg(i, lo if isinstance(lo, int) else zint(lo), hi, body, ff)]

    # -- values
    # -- binary
    def i4(self, name, *idx, lo=-2 ** 31, hi=2 ** 31 - 1):
        """A 32-bit integer."""
        t = self._fun(name, idx, IntS)
        self._fact(t >= lo)
        self._fact(t <= hi)
        return SInt(t)

    def f8(self, name, *idx):
        return SFlt(self._fun(name, idx, FltS))

    def ints(self, *items):
        from .binmodel import typed
        return typed("i", [x if isinstance(x, (int, Seg)) else SInt(zint(x)) for x in flat(items)])

    def doubles(self, *items):
        from .binmodel import typed
        return typed("d", flat(items))

    def ascii(self, *parts):
        from .binmodel import typed, SLEN
        s = self.cat(*parts)
        for p in pieces_of(s):
            if not isinstance(p, str):
                self._fact(SLEN(p.t) >= 0)
        return typed("s", [s])

    def raw(self, name, *idx):
        """A payload of unknown bytes."""
        from .binmodel import BytS
        n = self._fun(name + ".size", idx, IntS)
        self._fact(n >= 0)
        return SBytes(self._fun(name, idx, BytS), "raw", None, n)

    def bcat(self, *parts):
        from .binmodel import concat
        return concat(parts)

    def rec(self, data):
        """A Fortran record: length, payload, length."""
        from .binmodel import bint, nbytes
        return [bint(nbytes(data)), data, bint(nbytes(data))]

    def binfile(self, *units):
        import io
        return self.st.new(HFile(flat(units), None, io.BytesIO))

    def nonzero(self, x):
        return bool(x) if isinstance(x, int) else SBool(zint(x) != 0)

    def flt(self, s):
        return strs.to_float(s)

    def ratio(self, a, b):
        """float of the ratio printed as a/b"""
        return SFlt(strs.FRAC(strs.str_term(mkstr([*pieces_of(a), "/", *pieces_of(b)]))))

    def int(self, s):
        return strs.to_int(s)

    def trunc(self, x):
        return SInt(strs.TRUNC(x.t))

    def cplx(self, a, b):
        return SVal(strs.CPLX(a.t, b.t), complex)

    def L(self, *items):
        return FList(flat(items))

    def T(self, *items):
        return Tup(flat(items))

    def D(self, *pairs, **kw):
        out = []
        for p in flat(pairs):
            out.append(p)
        for k, v in kw.items():
            out.append(KV(k, v))
        return FDict(out)

    def kv(self, k, v):
        return KV(k, v)

    def S(self, *items):
        return FSet(flat(items))

    def distinct(self, n, f):
        """The values f(i), 0 <= i < n, are pairwise different."""
        i = fresh_int("d")
        self.collect.append([])
        v = f(SInt(i))
        self.collect.pop()
        self.M.distinct.append((i, v, tuple(self.outer)))

    def each(self, n, f):
        """State f(i) (declarations only) for every 0 <= i < n."""
        i = fresh_int("o")
        self.outer.append(i)
        self.collect.append([])
        f(SInt(i))
        self.collect.pop()
        self.outer.pop()

    def assume(self, c):
        if isinstance(c, SBool):
            c = c.t
        self._fact(c)

    def add(self, a, b):
        return self.fop("+", a, b) if isinstance(a, (SFlt, float)) or isinstance(b, (SFlt, float)) else as_int(tadd(zint(a), zint(b)))

    def sub(self, a, b):
        return self.fop("-", a, b)

    def mul(self, a, b):
        return self.fop("*", a, b) if isinstance(a, (SFlt, float)) or isinstance(b, (SFlt, float)) else as_int(tmul(zint(a), zint(b)))

    def approx(self, v):
        """A sum of floats, whatever the order it is taken in."""
        return v

    def fop(self, op, a, b):
        from .models import binop
        return binop(self.M, self.st, op, a, b)

    def same(self, a, b):
        from .merge import sbool
        r = self.M.eq(self.st, a, b)
        return r if isinstance(r, bool) else sbool(r)

    def le(self, a, b):
        return SBool(zint(a) <= zint(b))

    def lt(self, a, b):
        return SBool(zint(a) < zint(b))

    def pick(self, name, options):
        raise NotImplementedError

    def text(self, s):
        return s

    def lower(self, s):
        return strs.casemap(s, "lower")

    # -- inputs
    def file(self, *lines, name=None):
        """An open text file holding the lines."""
        return self.st.new(HFile(flat(lines), name=name) if name is not None else HFile(flat(lines)))

    # -- options that may be absent; conditions
    def optdict(self, *items, always=()):
        """A mapping in which each key may be absent (those of `always` are present)."""
        from .merge import HOptDict
        return self.st.new(HOptDict({k: (z3.BoolVal(True) if k in always else z3.Bool("has " + k), v)
                                     for k, v in items}))

    def oneof(self, name, options):
        """One of the listed values."""
        from .merge import choice
        t = z3.Int("which " + name)
        self._fact(t >= 0)
        self._fact(t < len(options))
        return choice([(t == n, v) for n, v in enumerate(options)])

    def flags(self, cls, on=(), off=()):
        """Any combination of the members of a Flag class with those of `on` and without those of `off`."""
        bits = {m.value: z3.BoolVal(True) if m in on else z3.BoolVal(False) if m in off else z3.Bool(f"{cls.__name__}.{m.name}")
                for m in cls}
        return SFlags(cls, bits)

    def opt(self, d, key, default=None):
        from .merge import opt_get
        return opt_get(self.M, self.st, d, key, default)

    def present(self, d, key):
        """The key is there."""
        from .merge import sbool
        return sbool(self.st.heap[d.id].entries[key][0])

    def truth(self, v):
        from .merge import sbool, truth_term
        return sbool(truth_term(self.M, self.st, v))

    def cond(self, f, *vs):
        """f of the values, for each of their alternatives."""
        from .merge import SChoice, choice
        for n, v in enumerate(vs):
            if isinstance(v, SChoice):
                return choice([(c, self.cond(f, *vs[:n], x, *vs[n + 1:])) for c, x in v.alts])
        return f(*vs)

    def all_(self, *cs):
        from .merge import sbool, zb
        return sbool(z3.And([zb(c) for c in cs] + [z3.BoolVal(True)]))

    def any_(self, *cs):
        from .merge import sbool, zb
        return sbool(z3.Or([zb(c) for c in cs] + [z3.BoolVal(False)]))

    def not_(self, c):
        from .merge import sbool, zb
        return sbool(z3.Not(zb(c)))

    def gt(self, a, b):
        from .merge import sbool
        return sbool(zint(a) > zint(b))

    def when(self, c, *items):
        """The items when the condition holds, none otherwise."""
        from .merge import zb
        out = []
        for x in items:
            if isinstance(x, Seg) and isinstance(x.lo, int) and x.lo == 0:
                out.append(Seg(x.var, 0, z3.simplify(z3.If(zb(c), zint(x.hi), z3.IntVal(0))), x.body, x.facts))
            else:
                out.append(Seg(fresh_int("w"), 0, z3.If(zb(c), z3.IntVal(1), z3.IntVal(0)), [x]))
        return out

    def setsorted(self, *pairs):
        """The sorted list of the distinct texts whose condition holds."""
        from .merge import SSorted, zb
        return SSorted([(v, zb(c)) for v, c in pairs])

    # -- file system
    def tmpdir(self):
        """Name of a directory (any name)."""
        return mkstr([Atom(z3.String("dir!"), DIRTXT)])

    def path(self, name, *lines, even=False):
        """The file called `name` exists and holds the lines; its name.  even: the last chunk's parts have equally many bytes."""
        chunks, lay = flat(lines), None
        if even:
            s0, b = offsets.make(len(self.st.ghost.get("fs", ())))
            assert isinstance(chunks[-1], Seg) and not any(isinstance(c, Seg) for c in chunks[:-1])
            self.assume(z3.And(s0 >= 0, b > 0))
            lay = (len(chunks) - 1, s0, b)
        self.st.ghost["fs"] = self.st.ghost.get("fs", ()) + ((name, chunks, lay),)
        return name

    def pathobj(self, name):
        from .fsmodel import split_path
        return split_path(name)

    def handle(self, name):
        from .fsmodel import open_
        return open_(self.M, self.st, name)

    def is_file(self, text, cond):
        """A file of this name exists exactly when the flag holds."""
        self.st.ghost["files"] = self.st.ghost.get("files", ()) + ((text, cond.t if isinstance(cond, SBool) else cond),)

    def globs(self, d, pat, names):
        """The names in directory d matching the pattern, in the order the directory gives them."""
        self.st.ghost["globs"] = self.st.ghost.get("globs", ()) + ((d, pat, flat(names)),)
        return names

    def flag(self, name, *idx):
        """An arbitrary truth value."""
        return SBool(self._fun(name, idx, z3.BoolSort()))

    def pylist(self, *items):
        return self.M.lift(self.st, self.st.new(HList(flat(items))))

    def pydict(self, *pairs, cls=dict, factory=None):
        return self.st.new(HDict(flat(pairs), cls, factory))


def _same_plain(st, x, y):
    """Two readings of one argument of the recursion: equal concrete dictionaries of classes and functions."""
    def items(v):
        if isinstance(v, Ref):
            v = st.heap[v.id]
            if isinstance(v, HDict) and not has_seg(v.entries):
                return {e.k: id(e.v) for e in v.entries}
            return None
        return {k: id(q) for k, q in v.items()} if type(v) is dict else None
    if isinstance(x, Ref) and isinstance(y, Ref) and x.id == y.id:
        return True
    a = items(x)
    return a is not None and a == items(y)


values_ctr = itertools.count(1)


def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, list):
            out += flat(x)
        else:
            out.append(x)
    return out


class RndCtx:
    symbolic = False

    def __init__(self, seed=0, counts=None, big=False):
        self.rng = random.Random(seed)
        self.memo = {}
        self.fixed = counts or {}
        self.used = {}
        self.big = big
        self.shown = []
        self.track = None
        self.special = False
        self.drawn = {}

    def count(self, name, *idx, lo=0, hi=None, sample=None):
        key = ("count", name, tuple(idx))
        if key not in self.memo:
            if not idx and name in self.fixed and self.fixed[name] <= 400:
                v = max(lo, self.fixed[name])
            else:
                top = lo + self.rng.choice([0, 1, 2, 3, 5, 11]) if sample is None else self.rng.choice(sample)
                v = max(lo, top)
            if hi is not None:
                v = min(v, hi)
            self.memo[key] = v
        return self.memo[key]

    def fld(self, lex, name, *idx, num=None):
        if num is not None:
            return str(num)
        key = (name, tuple(idx))
        if self.track is not None:
            self.track.add(key)
        if key not in self.memo:
            for _ in range(200):
                pool = self.drawn.setdefault(lex.name, [])
                if self.special and pool and self.rng.random() < .3:
                    v = self.rng.choice(pool)
                    if name in self.used:
                        if v in self.used[name]:
                            continue
                        self.used[name].add(v)
                    break
                v = self.draw(lex)
                if name in self.used:
                    if v in self.used[name]:
                        continue
                    self.used[name].add(v)
                break
            self.drawn.setdefault(lex.name, []).append(v)
            self.memo[key] = v
        return self.memo[key]

    def any(self, name, *idx, sample=None):
        key = (name, tuple(idx))
        if key not in self.memo:
            v = sample(self.rng)
            self.memo[key] = PList(v) if type(v) is list else v
        return self.memo[key]

    def hyp(self, fn, spec, extra=(), kwextra=None):
        return spec

    def draw(self, lex):
        if lex.core is not None:
            return lex.sample(self.rng)
        if lex.sample and self.rng.random() < .85:
            return lex.sample(self.rng)
        return random_member(lex.pattern, self.rng)

    def ifld(self, name, *idx, lex=INT):
        return self.fld(lex, name, *idx)

    def num(self, value, lex=INT):
        return str(value)

    @property
    def sp(self):
        return " " * self.rng.choice([1, 1, 2, 3, 7])

    @property
    def sp0(self):
        return " " * self.rng.choice([0, 0, 1, 4])

    def line(self, *parts, nl="\n"):
        return "".join(parts) + nl

    def cat(self, *parts):
        return "".join(parts)

    def rep(self, n, f, lo=0):
        out = []
        for i in range(lo, n):
            b = f(i)
            out += b if type(b) is list else [b]
        return out

    def i4(self, name, *idx, lo=-2 ** 31, hi=2 ** 31 - 1):
        key = ("i4", name, tuple(idx))
        if self.track is not None:
            self.track.add(key)
        if key not in self.memo:
            r = self.rng
            self.memo[key] = max(lo, min(hi, r.choice([r.randrange(0, 9), r.randrange(-9, 9), r.randrange(0, 70000),
                                                        r.randrange(-2 ** 31, 2 ** 31)])))
        return self.memo[key]

    def f8(self, name, *idx):
        key = ("f8", name, tuple(idx))
        if key not in self.memo:
            self.memo[key] = self.rng.choice([0.0, -1.5, self.rng.uniform(-9, 9), self.rng.uniform(-9e9, 9e9)])
        return self.memo[key]

    def ints(self, *items):
        xs = flat2(items)
        return struct.pack(f">{len(xs)}i", *xs)

    def doubles(self, *items):
        xs = flat2(items)
        return struct.pack(f">{len(xs)}d", *xs)

    def ascii(self, *parts):
        return "".join(parts).encode("ascii")

    def raw(self, name, *idx):
        key = ("raw", name, tuple(idx))
        if key not in self.memo:
            n = self.rng.choice([0, 1, 3, 4, 8, 12, 16, 40, 255, 256, 300, 70000 if self.rng.random() < .1 else 5])
            self.memo[key] = self.rng.randbytes(n)
        return self.memo[key]

    def bcat(self, *parts):
        return b"".join(parts)

    def rec(self, data):
        n = len(data).to_bytes(4, "big")
        return [n, data, n]

    def binfile(self, *units):
        import io
        data = b"".join(flat2(units))
        self.shown.append(data[:4000].hex())
        return io.BytesIO(data)

    def nonzero(self, x):
        return bool(x)

    def flt(self, s):
        return float(s)

    def ratio(self, a, b):
        return int(a) / int(b)

    def int(self, s):
        return int(s)

    def trunc(self, x):
        return int(x)

    def cplx(self, a, b):
        return complex(a, b)

    def L(self, *items):
        return flat2(items)

    def T(self, *items):
        return tuple(flat2(items))

    def D(self, *pairs, **kw):
        d = {}
        for p in flat2(pairs):
            d[p.k] = p.v
        d.update(kw)
        return d

    def kv(self, k, v):
        return KV(k, v)

    def S(self, *items):
        return set(flat2(items))

    def distinct(self, n, f):
        """The values f(i), 0 <= i < n, are pairwise different: redraw the fields of a repeated one."""
        seen = set()
        for i in range(n):
            for _ in range(60):
                self.track = set()
                v = f(i)
                keys, self.track = self.track, None
                if repr(v) not in seen:
                    break
                for k in keys:
                    self.memo.pop(k, None)
            else:
                raise Skip()
            seen.add(repr(v))

    def each(self, n, f):
        for i in range(n):
            f(i)

    def assume(self, c):
        if not c:
            raise Skip()

    def file(self, *lines, name=None):
        """An open text file holding the lines."""
        import io
        ls = flat2(lines)
        f = io.StringIO("".join(ls))
        if name is not None:
            f.name = name
        self.shown.append("".join(ls))
        return f

    def optdict(self, *items, always=()):
        d = {k: v for k, v in items if k in always or self.rng.random() < .6}
        self.shown.append(repr(d))
        return d

    def oneof(self, name, options):
        key = ("oneof", name)
        if key not in self.memo:
            self.memo[key] = self.rng.choice(list(options))
        return self.memo[key]

    def flags(self, cls, on=(), off=()):
        r = cls(0)
        for m in cls:
            if m in on or m not in off and self.rng.random() < .5:
                r |= m
        self.shown.append(repr(r))
        return r

    def opt(self, d, key, default=None):
        return d.get(key, default)

    def present(self, d, key):
        return key in d

    def truth(self, v):
        return bool(v)

    def cond(self, f, *vs):
        return f(*vs)

    def all_(self, *cs):
        return all(cs)

    def any_(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def gt(self, a, b):
        return a > b

    def when(self, c, *items):
        return list(items) if c else []

    def setsorted(self, *pairs):
        return PList(sorted({v for v, c in pairs if c}))

    def tmpdir(self):
        import tempfile
        if not hasattr(self, "_tmp"):
            self._tmp = tempfile.TemporaryDirectory(prefix="pyvc")
        return self._tmp.name

    def path(self, name, *lines, even=False):
        ls = flat2(lines)
        with open(name, "wb") as f:
            for x in ls:
                f.write(x if isinstance(x, bytes) else x.encode())
        self.shown.append(f"{name}:\n" + "".join(map(str, ls)))
        return name

    def pathobj(self, name):
        import pathlib
        return pathlib.Path(name)

    def handle(self, name):
        self._open = open(name)
        return self._open

    def is_file(self, text, cond):
        self.shown.append(f"{text} exists: {cond}")
        if cond:
            open(text, "w").close()

    def globs(self, d, pat, names):
        for n in flat2(names):
            open(n, "w").close()
        return sorted(set(flat2(names)))

    def flag(self, name, *idx):
        key = ("flag", name, tuple(idx))
        if key not in self.memo:
            self.memo[key] = self.rng.random() < .5
            self.shown.append(f"{name}{idx or ''} = {self.memo[key]}")
        return self.memo[key]

    def pylist(self, *items):
        v = plain(list(flat2(items)))
        self.shown.append(repr(v))
        return v

    def pydict(self, *pairs, cls=dict, factory=None):
        d = cls(factory) if factory is not None else cls()
        for p in flat2(pairs):
            d[p.k] = plain(p.v)
        self.shown.append(repr(d))
        return d

    def show(self):
        return "\n-----\n".join(self.shown)[:20000]

    def approx(self, v):
        return Approx(v)

    def add(self, a, b):
        return a + b

    def sub(self, a, b):
        return a - b

    def mul(self, a, b):
        return a * b

    def same(self, a, b):
        return a == b

    def le(self, a, b):
        return a <= b

    def lt(self, a, b):
        return a < b

    def text(self, s):
        return s

    def lower(self, s):
        return s.lower()


class PList(list):
    """A python list that is a value (not to be flattened)."""


def flat2(xs):
    """Top-level rep() results are lists to splice; values made by L() are PList."""
    out = PList()
    for x in xs:
        if type(x) is list:
            out.extend(flat2(x))
        else:
            out.append(x)
    return out


def plain(v):
    """PList -> list, recursively."""
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if type(v) is dict:
        return {plain(k): plain(x) for k, x in v.items()}
    if isinstance(v, dict):
        w = copy.copy(v)
        for k in list(w):
            w[k] = plain(w[k])
        return w
    return v


class Approx(float):
    pass


def same(a, b):
    """Type-aware equality (1 is not 1.0, list is not tuple, dict subclasses are dicts); None or a reason."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(map(key_of, a)) != set(map(key_of, b)):
            ka, kb = set(map(key_of, a)), set(map(key_of, b))
            return f"keys differ: unexpected {sorted(map(repr, ka - kb))[:6]} missing {sorted(map(repr, kb - ka))[:6]}"
        bb = {key_of(k): v for k, v in b.items()}
        for k, v in a.items():
            r = same(v, bb[key_of(k)])
            if r:
                return f"[{k!r}] {r}"
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, tuple) != isinstance(b, tuple):
            return f"{type(a).__name__} is not {type(b).__name__}: {a!r:.80} vs {b!r:.80}"
        if len(a) != len(b):
            return f"length {len(a)} is not {len(b)}: {a!r:.80} vs {b!r:.80}"
        for n, (x, y) in enumerate(zip(a, b)):
            r = same(x, y)
            if r:
                return f"[{n}] {r}"
        return None
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return None if a == b else f"{a!r:.80} is not {b!r:.80}"
    if isinstance(a, Approx) or isinstance(b, Approx):
        return None if isinstance(a, float) and isinstance(b, float) and (abs(a - b) <= 1e-6 + 1e-9 * abs(a) or a == b or (a != a and b != b)) else f"{a!r:.80} is not {b!r:.80}"
    if type(a) is not type(b):
        return f"{a!r:.80} ({type(a).__name__}) is not {b!r:.80} ({type(b).__name__})"
    if a == b or (a != a and b != b):
        return None
    return f"{a!r:.120} is not {b!r:.120}"


def key_of(k):
    return (type(k).__name__ if not isinstance(k, tuple) else "tuple", k)
