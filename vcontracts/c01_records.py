"""C01: Fortran record streams."""
from castep_outputs.bin_parsers.fortran_bin_parser import FortranBinaryReader
from pyvc.contract import Case, contract

from .common import *


def stream(g, n):
    """n records of any sizes"""
    return g.binfile(g.rep(n, lambda i: g.rec(g.raw("p", i))))


def pay(g, a, n):
    return g.rep(n, lambda i: [g.raw("p", i)], lo=a)


def left(reader):
    return [*reader]


@contract("C01")
def all_records(g):
    """Iterating delivers every payload once, in file order; afterwards there is nothing left."""
    n = g.count("n")

    def run(f):
        r = FortranBinaryReader(f)
        a = [x for x in r]
        return a, next(r, None), [*r]
    return Case(run, [stream(g, n)], expect=g.T(g.L(pay(g, 0, n)), None, g.L()))


@contract("C01")
def one_by_one(g):
    """next() delivers the following record."""
    n = g.count("n", lo=3)

    def run(f):
        r = FortranBinaryReader(f)
        return next(r), next(r), r.__next__(), left(r)
    return Case(run, [stream(g, n)], expect=g.T(g.raw("p", 0), g.raw("p", 1), g.raw("p", 2), g.L(pay(g, 3, n))))


@contract("C01")
def skipping(g):
    """skip(a) from the start, then the rest."""
    n, a = g.count("n"), g.count("a")
    g.assume(g.le(a, n))

    def run(f, a):
        r = FortranBinaryReader(f)
        out = r.skip(a)
        return out, left(r)
    return Case(run, [stream(g, n), a], expect=g.T(None, g.L(pay(g, a, n))))


@contract("C01")
def skipping_twice(g):
    """From any record: skip(b) moves on by exactly b records."""
    n, a, b = g.count("n"), g.count("a"), g.count("b")
    g.assume(g.le(g.add(a, b), n))

    def run(f, a, b):
        r = FortranBinaryReader(f)
        r.skip(a)
        r.skip(b)
        return left(r)
    return Case(run, [stream(g, n), a, b], expect=g.L(pay(g, g.add(a, b), n)))


@contract("C01", variants=[dict(how=h) for h in ("rewind", "skip")])
def rewinding(g, how):
    """From any record: rewind(b) and skip(-b) move back by exactly b records."""
    d, b, m = g.count("d"), g.count("b"), g.count("m")
    a = g.add(d, b)
    n = g.add(a, m)

    def run(f, a, b):
        r = FortranBinaryReader(f)
        r.skip(a)
        if how == "rewind":
            r.rewind(b)
        else:
            r.skip(-b)
        return left(r)
    return Case(run, [stream(g, n), a, b], expect=g.L(pay(g, d, n)))


@contract("C01")
def rewind_default(g):
    """rewind() without a number goes back one record; the record just read is delivered again."""
    a, m = g.count("a"), g.count("m", lo=1)
    n = g.add(a, m)

    def run(f, a):
        r = FortranBinaryReader(f)
        r.skip(a)
        x = next(r)
        r.rewind()
        y = next(r)
        r.rewind(1)
        return x, y, left(r)
    return Case(run, [stream(g, n), a], expect=g.T(g.raw("p", a), g.raw("p", a), g.L(pay(g, a, n))))


@contract("C01")
def rewind_from_end(g):
    """All the way back after everything was read."""
    n = g.count("n")

    def run(f, n):
        r = FortranBinaryReader(f)
        x = left(r)
        r.rewind(n)
        return x, left(r)
    return Case(run, [stream(g, n), n], expect=g.T(g.L(pay(g, 0, n)), g.L(pay(g, 0, n))))


@contract("C01")
def there_and_back(g):
    """skip and rewind by the same number cancel, at every record."""
    a, b, m = g.count("a"), g.count("b"), g.count("m")
    n = g.add(g.add(a, b), m)

    def run(f, a, b):
        r = FortranBinaryReader(f)
        r.skip(a)
        t = f.tell()
        r.skip(b)
        r.rewind(b)
        return f.tell() == t, left(r)
    return Case(run, [stream(g, n), a, b], expect=g.T(True, g.L(pay(g, a, n))))


@contract("C01")
def zero_moves(g):
    """Moving by no record moves nothing, also on an empty file and at its end."""
    n, a = g.count("n"), g.count("a")
    g.assume(g.le(a, n))

    def run(f, a):
        r = FortranBinaryReader(f)
        r.skip(0)
        r.rewind(0)
        r.skip(a)
        r.rewind(0)
        r.skip(0)
        return left(r)
    return Case(run, [stream(g, n), a], expect=g.L(pay(g, a, n)))


# ------------------------------------------------------------------------------------------------ typed reads
TYPES = {"int": int, "float": float, "bool": bool, "complex": complex, "str": str}


def item(g, typ, many, name, *idx):
    """(record units, value) of one item of a type"""
    n = g.count("n" + name, *idx) if many else 1
    one = (lambda v: v) if many else None
    if typ in ("int", "bool"):
        xs = lambda: g.rep(n, lambda j: [g.i4(name, *idx, j)])
        val = lambda: g.rep(n, lambda j: [g.i4(name, *idx, j) if typ == "int" else g.nonzero(g.i4(name, *idx, j))])
        data, vals, single = g.ints(*xs()), val, (lambda: g.i4(name, *idx, 0) if typ == "int" else g.nonzero(g.i4(name, *idx, 0)))
        if not many:
            data = g.ints(g.i4(name, *idx, 0))
    elif typ == "float":
        data = g.doubles(*g.rep(n, lambda j: [g.f8(name, *idx, j)])) if many else g.doubles(g.f8(name, *idx, 0))
        vals, single = (lambda: g.rep(n, lambda j: [g.f8(name, *idx, j)])), (lambda: g.f8(name, *idx, 0))
    elif typ == "complex":
        re, im = (lambda j: g.f8(name + "r", *idx, j)), (lambda j: g.f8(name + "i", *idx, j))
        data = g.doubles(*g.rep(n, lambda j: [re(j), im(j)])) if many else g.doubles(re(0), im(0))
        vals, single = (lambda: g.rep(n, lambda j: [g.cplx(re(j), im(j))])), (lambda: g.cplx(re(0), im(0)))
    else:
        t = g.cat(g.fld(LABEL, name, *idx), "  ")
        data = g.ascii(t)
        vals, single = (lambda: [t]), (lambda: t)
    return g.rec(data), g.T(*vals()) if many else single()


def ask(typ, many):
    return (TYPES[typ], ...) if many else TYPES[typ]


KINDS = [dict(typ=t, many=m) for t in TYPES for m in (False, True)]


@contract("C01", variants=KINDS)
def typed_get(g, typ, many):
    """get() takes exactly the next record, in its type."""
    a, m = g.count("a"), g.count("m")
    units, v = item(g, typ, many, "x")
    f = g.binfile(g.rep(a, lambda i: g.rec(g.raw("p", i))), units, g.rep(m, lambda i: g.rec(g.raw("q", i))))

    def run(f, a):
        r = FortranBinaryReader(f)
        r.skip(a)
        x = r.get(ask(typ, many))
        return x, left(r)
    return Case(run, [f, a], expect=g.T(v, g.L(g.rep(m, lambda i: [g.raw("q", i)]))))


ITEMS = [("int", False), ("str", False), ("float", True), ("complex", True), ("bool", False), ("int", True)]


@contract("C01", variants=[dict(how=h, k=k) for h in ("iter", "dict", "gets") for k in (0, 1, 3, 6)])
def typed_group(g, how, k):
    """A group of typed reads takes exactly one record per item."""
    m = g.count("m")
    its = [item(g, t, many, f"x{j}") for j, (t, many) in enumerate(ITEMS[:k])]
    f = g.binfile(*[u for u, v in its], g.rep(m, lambda i: g.rec(g.raw("q", i))))
    types = [ask(*x) for x in ITEMS[:k]]

    def run(f):
        r = FortranBinaryReader(f)
        if how == "iter":
            x = [*r.get_dtype_iter(types)]
        elif how == "gets":
            x = [r.get(t) for t in types]
        else:
            x = r.get_dtype_dict({f"x{j}": t for j, t in enumerate(types)})
        return x, left(r)
    vals = g.D(*[g.kv(f"x{j}", v) for j, (u, v) in enumerate(its)]) if how == "dict" else g.L(*[v for u, v in its])
    return Case(run, [f], expect=g.T(vals, g.L(g.rep(m, lambda i: [g.raw("q", i)]))))


@contract("C01", variants=[dict(how=h, k=k) for h in ("tuple", "dict") for k in (1, 2, 4)])
def typed_cycles(g, how, k):
    """n cycles over a group take n records per item and leave the rest."""
    n, m = g.count("n"), g.count("m")

    def its(i):
        return [item(g, t, many, f"x{j}", i) for j, (t, many) in enumerate(ITEMS[:k])]
    f = g.binfile(g.rep(n, lambda i: [u for un, v in its(i) for u in un]), g.rep(m, lambda i: g.rec(g.raw("q", i))))
    types = [ask(*x) for x in ITEMS[:k]]

    def run(f, n):
        r = FortranBinaryReader(f)
        group = tuple(types) if how == "tuple" else {f"x{j}": t for j, t in enumerate(types)}
        x = [*r.get_dtype_cycle(group, n=n)]
        return x, left(r)

    def vals(i):
        vs = [v for u, v in its(i)]
        return [g.T(*vs) if how == "tuple" else g.D(*[g.kv(f"x{j}", v) for j, v in enumerate(vs)])]
    return Case(run, [f, n], expect=g.T(g.L(g.rep(n, vals)), g.L(g.rep(m, lambda i: [g.raw("q", i)]))))


@contract("C01", variants=[dict(how=h) for h in ("tuple", "dict")])
def open_cycle(g, how):
    """Cycles without a number go on as long as they are asked."""
    n, m = g.count("n", lo=1), g.count("m")
    f = g.binfile(g.rep(n, lambda i: [*g.rec(g.ints(g.i4("a", i))), *g.rec(g.doubles(g.f8("b", i)))]),
                  g.rep(m, lambda i: g.rec(g.raw("q", i))))

    def run(f, n):
        r = FortranBinaryReader(f)
        group = (int, float) if how == "tuple" else {"a": int, "b": float}
        cyc = r.get_dtype_cycle(group)
        x = [next(cyc) for _ in range(n)]
        return x, left(r)
    one = lambda i: [g.T(g.i4("a", i), g.f8("b", i)) if how == "tuple" else g.D(g.kv("a", g.i4("a", i)), g.kv("b", g.f8("b", i)))]
    return Case(run, [f, n], expect=g.T(g.L(g.rep(n, one)), g.L(g.rep(m, lambda i: [g.raw("q", i)]))))


@contract("C01", variants=[dict(how=h) for h in ("get", "cycle", "dict")])
def interleaved(g, how):
    """Typed reads, skips and rewinds mixed."""
    n, m, s = g.count("n", lo=1), g.count("m"), g.count("s")
    f = g.binfile(g.rep(s, lambda i: g.rec(g.raw("p", i))), g.rep(n, lambda i: g.rec(g.ints(g.i4("a", i)))),
                  g.rep(m, lambda i: g.rec(g.raw("q", i))))

    def run(f, s, n):
        r = FortranBinaryReader(f)
        r.skip(s)
        if how == "cycle":
            x = [*r.get_dtype_cycle((int,), n=n)]
            r.rewind(n)
        elif how == "dict":
            x = r.get_dtype_dict({"v": int})["v"]
            r.rewind()
        else:
            x = r.get(int)
            r.rewind(1)
        y = r.get(int)
        r.skip(n - 1)
        return x, y, left(r)
    x = g.L(g.rep(n, lambda i: [g.T(g.i4("a", i))])) if how == "cycle" else g.i4("a", 0)
    return Case(run, [f, s, n], expect=g.T(x, g.i4("a", 0), g.L(g.rep(m, lambda i: [g.raw("q", i)]))))
