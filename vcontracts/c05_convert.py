"""C05: text-to-type conversion."""
from itertools import product

from castep_outputs.utilities.type_conv import fix_data_types, to_type
from pyvc.contract import Case, contract

from .common import *

PFLT = Lex("PFLT", r"[+-]?(?:\d+\.\d*|\.\d+)(?:[eE][+-]?\d{1,2})?",
           lambda r: r.choice(["+1.5", "-.5", "5.", "0.125", "-12.0625", "3.E1", "1.5e-3", "+2.E+05"]))
PINT = Lex("PINT", r"[+-]?\d+", lambda r: r.choice(["0", "007", "+12", "-3", "123456789012345678901"]))
RNUM = Lex("RNUM", r"[+-]?\d{1,6}", lambda r: str(r.randrange(-99, 99)))
RDEN = Lex("RDEN", r"[1-9]\d{0,5}", lambda r: str(r.randrange(1, 99)))
TRUES = sorted({"".join(c) for w in ("t", "true", "1") for c in product(*[(x, x.upper()) for x in w])})
FALSES = sorted({"".join(c) for w in ("f", "false", "0") for c in product(*[(x, x.upper()) for x in w])})


def text(g, kind, name, *idx):
    """(text, type, value) of one printed item"""
    if kind == "flt":
        t = g.fld(PFLT, name, *idx)
        return t, float, g.flt(t)
    if kind == "fint":
        t = g.fld(PINT, name, *idx)
        return t, float, g.flt(t)
    if kind == "int":
        t = g.fld(PINT, name, *idx)
        return t, int, g.int(t)
    if kind == "ratio":
        a, b = g.fld(RNUM, name + "n", *idx), g.fld(RDEN, name + "d", *idx)
        return g.cat(a, "/", b), float, g.ratio(a, b)
    if kind == "str":
        t = g.fld(LABEL, name, *idx)
        return t, str, t
    raise ValueError(kind)


KINDS = [dict(kind=k) for k in ("flt", "fint", "int", "ratio", "str")]


@contract("C05", variants=KINDS)
def one_text(g, kind):
    t, typ, v = text(g, kind, "x")
    return Case(to_type, [t, typ], expect=v)


@contract("C05", variants=KINDS)
def padded_text(g, kind):
    t, typ, v = text(g, kind, "x")
    if kind in ("str",):
        t = g.cat(" ", t, "  ")
        return Case(to_type, [t, typ], expect=t)
    if kind == "ratio":
        return Case(to_type, [g.cat(" ", t, "  "), typ], expect=v)
    return Case(to_type, [g.cat(g.sp, t, g.sp), typ], expect=v)


@contract("C05", samples=4)
def logicals(g):
    def run():
        return ([to_type(x, bool) for x in TRUES], [to_type(x, bool) for x in FALSES])
    return Case(run, [], expect=g.T(g.L(*[True] * len(TRUES)), g.L(*[False] * len(FALSES))))


@contract("C05", variants=[dict(kind=k, cls=c) for k in ("flt", "int", "ratio", "str") for c in ("list", "tuple", "gen")])
def many_texts(g, kind, cls):
    n = g.count("n")
    items = g.pylist(g.rep(n, lambda i: [text(g, kind, "x", i)[0]]))
    typ = text(g, kind, "x", 0)[1]

    def run(xs):
        if cls == "tuple":
            xs = tuple(xs)
        elif cls == "gen":
            xs = (x for x in xs)
        return to_type(xs, typ)
    return Case(run, [items], expect=g.T(g.rep(n, lambda i: [text(g, kind, "x", i)[2]])))


@contract("C05", variants=[dict(kind=k) for k in ("flt", "int", "str")])
def record_of_texts(g, kind):
    n = g.count("n")
    g.distinct(n, lambda i: g.fld(LABEL, "key", i))
    typ = text(g, kind, "x", 0)[1]
    d = g.pydict(g.rep(n, lambda i: [g.kv(g.fld(LABEL, "key", i), text(g, kind, "x", i)[0])]))
    return Case(to_type, [d, typ],
                expect=g.D(g.rep(n, lambda i: [g.kv(g.fld(LABEL, "key", i), text(g, kind, "x", i)[2])])))


@contract("C05", variants=[dict(typ=t) for t in (int, float, bool, str, complex)], samples=4)
def non_texts(g, typ):
    """Values that are not text stay as they are, alone and inside a sequence or mapping."""
    def run():
        vals = (None, True, 3, -7, 2.5, 1 + 2j)
        return [to_type(v, typ) for v in vals], to_type(vals, typ), to_type({i: v for i, v in enumerate(vals)}, typ)
    vals = (None, True, 3, -7, 2.5, 1 + 2j)
    return Case(run, [], expect=g.T(g.L(*vals), g.T(*vals), g.D(*[g.kv(i, v) for i, v in enumerate(vals)])))


def sample(rng, depth=0):
    """A random structure of texts of numbers."""
    r = rng.randrange(6 if depth < 3 else 3)
    if r < 2:
        return rng.choice(["1", "22", "-3", "0"])
    if r == 2:
        return rng.choice([None, 4, 2.5])
    if r == 3:
        return [sample(rng, depth + 1) for _ in range(rng.randrange(4))]
    if r == 4:
        return tuple(sample(rng, depth + 1) for _ in range(rng.randrange(4)))
    return {rng.choice("abcdef"): sample(rng, depth + 1) for _ in range(rng.randrange(4))}


def spec_convert(typ):
    def spec(v):
        if isinstance(v, str):
            return typ(v)
        if isinstance(v, dict):
            return {k: spec(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return tuple(spec(x) for x in v)
        return v
    return spec


@contract("C05", variants=[dict(typ=t, cls=c) for t in (int, float) for c in ("list", "tuple")])
def nested_sequence(g, typ, cls):
    """Induction step: a sequence of arbitrary values converts element by element, in order."""
    n = g.count("n")
    conv = g.hyp(to_type, spec_convert(typ), extra=(typ,))
    v = g.pylist(g.rep(n, lambda i: [g.any("v", i, sample=sample)]))

    def run(xs):
        return to_type(tuple(xs) if cls == "tuple" else xs, typ)
    return Case(run, [v], expect=g.T(g.rep(n, lambda i: [conv(g.any("v", i, sample=sample))])))


@contract("C05", variants=[dict(typ=t) for t in (int, float)])
def nested_record(g, typ):
    """Induction step: a mapping of arbitrary values keeps its keys and converts each value."""
    n = g.count("n")
    conv = g.hyp(to_type, spec_convert(typ), extra=(typ,))
    g.distinct(n, lambda i: g.fld(LABEL, "key", i))
    d = g.pydict(g.rep(n, lambda i: [g.kv(g.fld(LABEL, "key", i), g.any("v", i, sample=sample))]))
    return Case(to_type, [d, typ],
                expect=g.D(g.rep(n, lambda i: [g.kv(g.fld(LABEL, "key", i), conv(g.any("v", i, sample=sample)))])))


@contract("C05", variants=[dict(have=h) for h in product((0, 1), repeat=3)])
def selected_entries(g, have):
    """Exactly the listed entries that are present change; the rest of the record, of any size, is untouched."""
    n = g.count("n")
    listed = [("alpha-1", "flt"), ("beta-1", "int"), ("gamma-1", "str")]
    g.distinct(n, lambda i: g.fld(LABEL, "key", i))
    rest = g.rep(n, lambda i: [g.kv(g.fld(LABEL, "key", i), g.any("v", i, sample=sample))])
    before, after = [], []
    for h, (k, kind) in zip(have, listed):
        if h:
            t, typ, v = text(g, kind, k)
            before.append(g.kv(k, t))
            after.append(g.kv(k, v))
    tail, tail2 = before[-1:], after[-1:]
    d = g.pydict(*before[:-1], rest, *tail)
    types = {k: {"flt": float, "int": int, "str": str}[kind] for k, kind in listed}

    def run(d):
        r = fix_data_types(d, types)
        return r, d
    return Case(run, [d], expect=g.T(None, g.D(*after[:-1], rest, *tail2)))


@contract("C05")
def selected_listed(g):
    """Every listed entry changes, however many are listed; unlisted texts stay texts."""
    n = g.count("n")
    g.distinct(n, lambda i: g.fld(LABEL, "key", i))
    d = g.pydict(g.kv("free-1", g.fld(PINT, "free")),
                 g.rep(n, lambda i: [g.kv(g.fld(LABEL, "key", i), g.fld(PINT, "x", i))]))
    types = g.pydict(g.rep(n, lambda i: [g.kv(g.fld(LABEL, "key", i), int)]))

    def run(d, t):
        fix_data_types(d, t)
        return d
    return Case(run, [d, types],
                expect=g.D(g.kv("free-1", g.fld(PINT, "free")),
                           g.rep(n, lambda i: [g.kv(g.fld(LABEL, "key", i), g.int(g.fld(PINT, "x", i)))])))


@contract("C05")
def selected_empty(g):
    """Entries are selected by their key, whatever their value: empty sequences are converted, other values unchanged."""
    n = g.count("n")
    t = g.fld(PINT, "x")
    d = g.pydict(g.kv("list", []), g.kv("tuple", ()), g.kv("dict", {}), g.kv("zero", 0), g.kv("none", None), g.kv("false", False),
                 g.kv("text", ""), g.kv("any", g.any("v", sample=lambda r: r.choice([None, 0, 2.5, False]))), g.kv("x", t),
                 g.kv("many", g.pylist(g.rep(n, lambda i: [g.fld(PINT, "y", i)]))))
    types = {k: float for k in ("list", "tuple", "dict", "zero", "none", "false", "absent", "x", "many")}

    def run(d):
        fix_data_types(d, types)
        return d
    return Case(run, [d], expect=g.D(
        g.kv("list", g.T()), g.kv("tuple", g.T()), g.kv("dict", g.D()), g.kv("zero", 0), g.kv("none", None), g.kv("false", False),
        g.kv("text", ""), g.kv("any", g.any("v", sample=lambda r: r.choice([None, 0, 2.5, False]))), g.kv("x", g.flt(t)),
        g.kv("many", g.T(g.rep(n, lambda i: [g.flt(g.fld(PINT, "y", i))])))))
