"""C08: normalised and exportable results."""
from collections import defaultdict
from itertools import product

from castep_outputs.utilities.utility import json_safe, normalise
from pyvc.contract import Case, contract

from .common import *


def tree(rng, depth=0):
    """A random parsed structure."""
    r = rng.randrange(10 if depth < 4 else 6)
    if r < 6:
        return rng.choice(["Ar", "x y", 3, -1, 2.5, 0.0, None, True, False, 1 + 2j, -0.5j])
    n = rng.randrange(4)
    if r == 6:
        return [tree(rng, depth + 1) for _ in range(n)]
    if r == 7:
        return tuple(tree(rng, depth + 1) for _ in range(n))
    keys = [rng.choice(["a", "b", "c", ("Ar", 1), ("He", "Ne"), (("Ar", 1), ("Ne", 2)), 4, ("x", "y", "z")]) for _ in range(n)]
    d = {k: tree(rng, depth + 1) for k in keys}
    return d if r == 8 else defaultdict(list, d)


def tree_nc(rng, depth=0):
    """... as normalisation leaves it: no list, no complex outside mappings."""
    r = rng.randrange(9 if depth < 4 else 6)
    if r < 6:
        return rng.choice(["Ar", "x y", 3, -1, 2.5, None, True])
    n = rng.randrange(4)
    if r == 6:
        return tuple(tree_nc(rng, depth + 1) for _ in range(n))
    keys = [rng.choice(["a", "b", ("Ar", 1), ("He", "Ne"), (("Ar", 1), ("Ne", 2)), 4]) for _ in range(n)]
    return {k: rng.choice([1 + 2j, tree_nc(rng, depth + 1)]) for k in keys}


def s_norm(mapping):
    """Specification: what normalising means at every depth."""
    def spec(v):
        if isinstance(v, (list, tuple)):
            v = tuple(spec(x) for x in v)
        elif isinstance(v, dict):
            v = {k: spec(x) for k, x in v.items()}
        return mapping[type(v)](v) if type(v) in mapping else v
    return spec


def parts(k):
    return [q for p in k for q in (parts(p) if isinstance(p, tuple) else [str(p)])]


def s_json(v):
    if isinstance(v, dict):
        return {"_".join(parts(k)) if isinstance(k, tuple) else k: s_json(x) for k, x in v.items()}
    if isinstance(v, complex):
        return {"real": v.real, "imag": v.imag}
    return v


@contract("C08", variants=[dict(cls=c) for c in ("list", "tuple")])
def sequences(g, cls):
    """Every list becomes a tuple of the normalised elements, in order (induction step)."""
    n = g.count("n")
    m = {}
    nrm = g.hyp(normalise, s_norm(m), extra=(m,))
    v = g.pylist(g.rep(n, lambda i: [g.any("v", i, sample=tree)]))

    def run(v):
        return normalise(tuple(v) if cls == "tuple" else v, m), list(v)
    return Case(run, [v], expect=g.T(g.T(g.rep(n, lambda i: [nrm(g.any("v", i, sample=tree))])),
                                     g.L(g.rep(n, lambda i: [g.any("v", i, sample=tree)]))))


@contract("C08", variants=[dict(cls=c) for c in ("dict", "defaultdict")])
def mappings(g, cls):
    """Every mapping becomes a plain dict: same keys, same order, normalised values (induction step)."""
    n = g.count("n")
    m = {}
    nrm = g.hyp(normalise, s_norm(m), extra=(m,))
    g.distinct(n, lambda i: g.fld(LABEL, "k", i))
    kvs = g.rep(n, lambda i: [g.kv(g.fld(LABEL, "k", i), g.any("v", i, sample=tree))])
    d = g.pydict(kvs) if cls == "dict" else g.pydict(kvs, cls=defaultdict, factory=list)

    def run(d):
        out = normalise(d, m)
        return out, type(out) is dict, list(out), len(d)
    return Case(run, [d],
                expect=g.T(g.D(g.rep(n, lambda i: [g.kv(g.fld(LABEL, "k", i), nrm(g.any("v", i, sample=tree)))])), True,
                           g.L(g.rep(n, lambda i: [g.fld(LABEL, "k", i)])), n))


@contract("C08", samples=4)
def scalars(g):
    """Everything else is left alone."""
    vals = (None, True, False, 3, -2, 2.5, "text", "", 1 + 2j, b"raw")

    def run():
        return tuple(normalise(v, {}) for v in vals), normalise([], {}), normalise({}, {}), normalise((), {})
    return Case(run, [], expect=g.T(g.T(*vals), g.T(), g.D(), g.T()))


LEAVES = (True, False, 7, 0, 2.5, 1 + 2j, "seven", b"raw", None, Ellipsis)


@contract("C08", variants=[dict(which=w) for w in ("tuple", "list", "dict", "defaultdict", "int", "bool", "float", "complex", "str")])
def mapped_types(g, which):
    """The requested type mapping applies to the normalised value and to no other type."""
    n = g.count("n")
    typ = dict(tuple=tuple, list=list, dict=dict, defaultdict=defaultdict, int=int, bool=bool, float=float, complex=complex, str=str)[which]

    def tag(x):
        return ("tagged", x)
    m = {typ: tag}
    nrm = g.hyp(normalise, s_norm(m), extra=(m,))
    items = g.pylist(g.rep(n, lambda i: [g.any("v", i, sample=tree)]))
    d = g.pydict(g.kv("key", g.any("w", sample=tree)))

    def run(xs, d):
        return normalise(xs, m), normalise(d, m), [normalise(v, m) for v in LEAVES]

    def tg(t, x):
        return g.T("tagged", x) if typ is t else x
    xs = g.T(g.rep(n, lambda i: [nrm(g.any("v", i, sample=tree))]))
    return Case(run, [items, d],
                expect=g.T(tg(tuple, xs), tg(dict, g.D(g.kv("key", nrm(g.any("w", sample=tree))))),
                           g.L(*[tg(type(v), v) for v in LEAVES])))


def key_of(g, kind, i):
    """(key, its exported text)"""
    s, j = g.fld(SPEC, "s", i), g.int(g.fld(INT, "j", i))
    s2, j2 = g.fld(SPEC, "t", i), g.int(g.fld(INT, "l", i))
    if kind == "atom":
        return g.T(s, j), g.cat(s, "_", g.num(j))
    if kind == "pair":
        return g.T(s, s2), g.cat(s, "_", s2)
    if kind == "triple":
        return g.T(s, s2, j), g.cat(s, "_", s2, "_", g.num(j))
    if kind == "bond":
        return g.T(g.T(s, j), g.T(s2, j2)), g.cat(s, "_", g.num(j), "_", s2, "_", g.num(j2))
    if kind == "text":
        return s, s
    return j, j


KEYS = ("atom", "pair", "triple", "bond", "text", "int")


@contract("C08", variants=[dict(kind=k) for k in KEYS])
def safe_keys(g, kind):
    """Every tuple key becomes one text joining its parts; the argument itself is unchanged (induction step)."""
    n = g.count("n")
    js = g.hyp(json_safe, s_json)
    g.distinct(n, lambda i: key_of(g, kind, i)[0])
    g.distinct(n, lambda i: key_of(g, kind, i)[1])
    d = g.pydict(g.rep(n, lambda i: [g.kv(key_of(g, kind, i)[0], g.any("v", i, sample=tree_nc))]))

    def run(d):
        return json_safe(d), d
    return Case(run, [d],
                expect=g.T(g.D(g.rep(n, lambda i: [g.kv(key_of(g, kind, i)[1], js(g.any("v", i, sample=tree_nc)))])),
                           g.D(g.rep(n, lambda i: [g.kv(key_of(g, kind, i)[0], g.any("v", i, sample=tree_nc))]))))


@contract("C08", variants=[dict(kind=k) for k in KEYS])
def safe_complex(g, kind):
    """Complex values become their real and imaginary parts."""
    n = g.count("n")
    g.distinct(n, lambda i: key_of(g, kind, i)[0])
    g.distinct(n, lambda i: key_of(g, kind, i)[1])

    def val(i):
        return g.cplx(g.flt(g.fld(FLT, "re", i)), g.flt(g.fld(FLT, "im", i)))
    d = g.pydict(g.rep(n, lambda i: [g.kv(key_of(g, kind, i)[0], val(i))]))
    return Case(json_safe, [d],
                expect=g.D(g.rep(n, lambda i: [g.kv(key_of(g, kind, i)[1], g.D(
                    g.kv("real", g.flt(g.fld(FLT, "re", i))), g.kv("imag", g.flt(g.fld(FLT, "im", i)))))])))


@contract("C08", samples=4)
def safe_scalars(g):
    vals = (None, True, 3, 2.5, "text", (1, 2), [3, "x"], {})

    def run():
        return [json_safe(v) for v in vals], json_safe(1 + 2j), json_safe(-0.5j)
    return Case(run, [], expect=g.T(g.L(None, True, 3, 2.5, "text", g.T(1, 2), g.L(3, "x"), g.D()),
                                    g.D(g.kv("real", 1.0), g.kv("imag", 2.0)), g.D(g.kv("real", -0.0), g.kv("imag", -0.5))))


@contract("C08", variants=[dict(kind=k) for k in ("atom", "bond", "text")])
def json_export(g, kind):
    """The exporting composition: normalise everything, make every mapping safe, at one level over any values."""
    n = g.count("n")
    m = {dict: json_safe, complex: json_safe}
    nrm = g.hyp(normalise, s_norm(m), extra=(m,))
    js = g.hyp(json_safe, s_json)
    g.distinct(n, lambda i: key_of(g, kind, i)[0])
    g.distinct(n, lambda i: key_of(g, kind, i)[1])
    d = g.pydict(g.rep(n, lambda i: [g.kv(key_of(g, kind, i)[0], g.any("v", i, sample=tree))]),
                 cls=defaultdict, factory=list)
    return Case(normalise, [d, m],
                expect=g.D(g.rep(n, lambda i: [g.kv(key_of(g, kind, i)[1], js(nrm(g.any("v", i, sample=tree))))])))
