"""C09: dictionary helpers."""
from collections import defaultdict
from itertools import product

from castep_outputs.utilities.utility import add_aliases, filter_underscore, flatten_dict, stack_dict, strip_nones
from pyvc.contract import Case, contract

from .common import *


def leaf(g, kind, *idx):
    return g.flt(g.fld(FLT, "v", *idx)) if kind == "float" else g.fld(LABEL, "v", *idx)


@contract("C09", variants=[dict(kind=k, cls=c) for k in ("float", "text") for c in ("dict", "defaultdict")])
def flat_stays(g, kind, cls):
    """A mapping without nesting is returned entry by entry."""
    n = g.count("n")
    g.distinct(n, lambda i: g.fld(LABEL, "k", i))
    kvs = g.rep(n, lambda i: [g.kv(g.fld(LABEL, "k", i), leaf(g, kind, i))])
    d = g.pydict(kvs) if cls == "dict" else g.pydict(kvs, cls=defaultdict, factory=list)

    def run(d):
        out = flatten_dict(d)
        return out, list(out), type(out) is dict
    return Case(run, [d], expect=g.T(g.D(g.rep(n, lambda i: [g.kv(g.fld(LABEL, "k", i), leaf(g, kind, i))])),
                                     g.L(g.rep(n, lambda i: [g.fld(LABEL, "k", i)])), True))


@contract("C09", variants=[dict(kind=k, sep=s, cls=c) for k in ("float", "text") for s in ("_", ".", "/", "::")
                           for c in ("list", "tuple")])
def sequence_leaves(g, kind, sep, cls):
    """Every element of a sequence is an entry under key, separator, index."""
    n = g.count("n")
    v = g.pylist(g.rep(n, lambda i: [leaf(g, kind, i)]))

    def run(key, v):
        return flatten_dict({key: v if cls == "list" else tuple(v)}, separator=sep)
    return Case(run, [g.fld(WORD, "key"), v],
                expect=g.D(g.rep(n, lambda i: [g.kv(g.cat(g.fld(WORD, "key"), sep, g.num(i)), leaf(g, kind, i))])))


@contract("C09", variants=[dict(kind=k, sep=s) for k in ("float", "text") for s in ("_", ".")])
def mapping_leaves(g, kind, sep):
    """Every entry of a mapping is an entry under key, separator, inner key."""
    n = g.count("n")
    g.distinct(n, lambda i: g.fld(LABEL, "k", i))
    d = g.pydict(g.rep(n, lambda i: [g.kv(g.fld(LABEL, "k", i), leaf(g, kind, i))]))

    def run(key, d):
        return flatten_dict({key: d}, "", sep)
    return Case(run, [g.fld(WORD, "key"), d],
                expect=g.D(g.rep(n, lambda i: [g.kv(g.cat(g.fld(WORD, "key"), sep, g.fld(LABEL, "k", i)), leaf(g, kind, i))])))


@contract("C09", variants=[dict(sep=s, parent=p) for s in ("_", ".") for p in ("word", 0, None, "")])
def deep_paths(g, sep, parent):
    """Mappings in mappings in sequences: one entry per leaf under its full path."""
    key = g.fld(WORD, "key") if parent == "word" else parent
    n, m = g.count("n"), g.count("m")
    g.distinct(n, lambda i: g.fld(WORD, "k", i))
    inner = g.pydict(g.rep(n, lambda i: [g.kv(g.fld(WORD, "k", i), g.flt(g.fld(FLT, "v", i)))]))
    seq = g.pylist(g.rep(m, lambda j: [g.fld(WORD, "w", j)]))

    def run(key, inner, seq, last):
        return flatten_dict({key: {"in": [inner, seq], 7: last}, "-z": {"deep": {"er": {"x": last}}}}, separator=sep)
    pre = "" if parent in (None, "") else g.cat(key if parent == "word" else str(key), sep)
    seven = 7 if parent in (None, "") else g.cat(pre, "7")
    return Case(run, [key, inner, seq, g.flt(g.fld(FLT, "last"))], expect=g.D(
        g.rep(n, lambda i: [g.kv(g.cat(pre, "in", sep, "0", sep, g.fld(WORD, "k", i)), g.flt(g.fld(FLT, "v", i)))]),
        g.rep(m, lambda j: [g.kv(g.cat(pre, "in", sep, "1", sep, g.num(j)), g.fld(WORD, "w", j))]),
        g.kv(seven, g.flt(g.fld(FLT, "last"))),
        g.kv(sep.join(["-z", "deep", "er", "x"]), g.flt(g.fld(FLT, "last")))))


@contract("C09", variants=[dict(inplace=a, replace=b, present=c, clash=d) for a in (True, False) for b in (True, False)
                           for c in (True, False) for d in (True, False)])
def aliases(g, inplace, replace, present, clash):
    """An alias gets its source's value; the source goes only on request; the caller's record changes only in place."""
    n = g.count("n")
    g.distinct(n, lambda i: g.fld(WORD, "k", i))
    body = g.rep(n, lambda i: [g.kv(g.fld(WORD, "k", i), g.any("v", i, sample=lambda r: r.randrange(99)))])
    src = [g.kv("_source", g.any("src", sample=lambda r: r.random()))] if present else []
    old = [g.kv("_alias", g.any("old", sample=lambda r: r.random()))] if clash else []
    d = g.pydict([*body, *src, *old])
    kw = {}
    if replace:
        kw["replace"] = True
    if not inplace:
        kw["inplace"] = False

    def run(d):
        out = add_aliases(d, {"_source": "_alias", "_missing": "_none"}, **kw)
        return dict(out), out is d, dict(d)

    def sp(k):
        return g.kv(k, g.any("src", sample=lambda r: r.random()))
    before = [*body, *src, *old]
    if not present:
        after = before
    else:
        after = [*body, *([] if replace else [sp("_source")]), sp("_alias")]
    return Case(run, [d], expect=g.T(g.D(*after), inplace, g.D(*(after if inplace else before))))


@contract("C09", variants=[dict(inplace=a, replace=b) for a in (True, False) for b in (True, False)])
def aliases_many(g, inplace, replace):
    """... for any number of aliases."""
    n = g.count("n")
    g.distinct(n, lambda i: g.fld(WORD, "k", i))
    g.distinct(n, lambda i: g.fld(WORD, "a", i))
    val = lambda i: g.any("v", i, sample=lambda r: r.randrange(99))
    src = lambda i: g.cat("from_", g.fld(WORD, "k", i))
    new = lambda i: g.cat("to_", g.fld(WORD, "a", i))
    d = g.pydict(g.rep(n, lambda i: [g.kv(src(i), val(i))]))
    al = g.pydict(g.rep(n, lambda i: [g.kv(src(i), new(i))]))

    def run(d, al):
        out = add_aliases(d, al, inplace=inplace, replace=replace)
        return dict(out), out is d, dict(d)
    before = g.rep(n, lambda i: [g.kv(src(i), val(i))])
    after = [*([] if replace else before), *g.rep(n, lambda i: [g.kv(new(i), val(i))])]
    return Case(run, [d, al], expect=g.T(g.D(*after), inplace, g.D(*(after if inplace else before))))


@contract("C09")
def chained_alias(g):
    """An alias of an alias made in the same call."""
    v = g.any("v", sample=lambda r: r.random())
    d = g.pydict([g.kv("a", v)])

    def run(d):
        return add_aliases(d, {"a": "b", "c": "d"}), add_aliases({"q": d}, {"q": "r"}, replace=True)["r"] is d
    return Case(run, [d], expect=g.T(g.D(g.kv("a", v), g.kv("b", v)), True))


@contract("C09", variants=[dict(swap=a) for a in (True, False)])
def aliases_of_sources(g, swap):
    """On a copy every alias has the value its source has in the caller's record, also when it is a source itself."""
    n = g.count("n")
    g.distinct(n, lambda i: g.fld(WORD, "k", i))
    val = lambda i: g.any("v", i, sample=lambda r: r.randrange(99))
    a, b = g.any("a", sample=lambda r: r.random()), g.any("b", sample=lambda r: r.random())
    rest = g.rep(n, lambda i: [g.kv(g.cat("_", g.fld(WORD, "k", i)), val(i))])
    d = g.pydict(*rest, g.kv("a", a), g.kv("b", b))
    al = {"a": "b", "b": "a" if swap else "c"}

    def run(d):
        return add_aliases(d, al, inplace=False), d
    after = [g.kv("a", b), g.kv("b", a)] if swap else [g.kv("a", a), g.kv("b", a), g.kv("c", b)]
    return Case(run, [d], expect=g.T(g.D(*rest, *after), g.D(*rest, g.kv("a", a), g.kv("b", b))))


@contract("C09", variants=[dict(empty=False), dict(empty=True)])
def stacking(g, empty):
    """Each value goes to the end of its own column."""
    n, m = g.count("n"), g.count("m")
    g.distinct(n, lambda i: g.fld(WORD, "k", i))
    val = lambda i: g.any("v", i, sample=lambda r: r.randrange(99))
    d = g.pydict(g.rep(n, lambda i: [g.kv(g.fld(WORD, "k", i), val(i))]))
    old = g.pylist(g.rep(m, lambda j: [g.any("old", j, sample=lambda r: r.randrange(99))]))

    def run(d, old):
        out = defaultdict(list)
        if not empty:
            out["_kept"] = old
            out["_kept2"].append(5)
            d = {**d, "_kept": 3}
        stack_dict(out, d)
        stack_dict(out, d)
        return dict(out), list(d)
    tail = [] if empty else ["_kept"]
    return Case(run, [d, old], expect=g.T(g.D(
        *([] if empty else [g.kv("_kept", g.L(g.rep(m, lambda j: [g.any("old", j, sample=lambda r: r.randrange(99))]), 3, 3)),
                            g.kv("_kept2", g.L(5))]),
        g.rep(n, lambda i: [g.kv(g.fld(WORD, "k", i), g.L(val(i), val(i)))])),
        g.L(g.rep(n, lambda i: [g.fld(WORD, "k", i)]), *tail)))


KEYS = "abcd"


@contract("C09", variants=[dict(none=a, inc=b, exc=c) for a in ("", "ab", "abcd")
                           for b in (None, "", "bc", "az") for c in ("", "a", "bz")])
def stripping(g, none, inc, exc):
    """Exactly the selected empty entries go; values such as 0, "" and False stay."""
    n = g.count("n")
    g.distinct(n, lambda i: g.fld(WORD, "k", i))
    w = lambda i: g.cat("_", g.fld(WORD, "k", i))
    kvs = lambda: g.rep(n, lambda i: [g.kv(w(i), g.flt(g.fld(FLT, "v", i)))])
    small = {"a": 0, "b": "", "c": False, "d": g.flt(g.fld(FLT, "d"))}
    ent = {k: None if k in none else small[k] for k in KEYS}
    d = g.pydict([*kvs(), *[g.kv(k, v) for k, v in ent.items()]])
    kw = {}
    if inc is not None:
        kw["include"] = list(inc)
    if exc:
        kw["exclude"] = tuple(exc)

    def run(d):
        r = strip_nones(d, **kw)
        return r, d
    keep = [k for k in KEYS if not (ent[k] is None and (inc is None or k in inc) and k not in exc)]
    return Case(run, [d], expect=g.T(None, g.D(kvs(), *[g.kv(k, ent[k]) for k in keep])))


@contract("C09")
def strip_all(g):
    """Any number of empty entries, all stripped."""
    n, m = g.count("n"), g.count("m")
    g.distinct(n, lambda i: g.fld(WORD, "k", i))
    g.distinct(m, lambda i: g.fld(WORD, "l", i))
    d = g.pydict([*g.rep(n, lambda i: [g.kv(g.cat("_", g.fld(WORD, "k", i)), None)]),
                  *g.rep(m, lambda i: [g.kv(g.cat("-", g.fld(WORD, "l", i)), g.flt(g.fld(FLT, "v", i)))])])

    def run(d):
        strip_nones(d)
        return d
    return Case(run, [d], expect=g.D(g.rep(m, lambda i: [g.kv(g.cat("-", g.fld(WORD, "l", i)), g.flt(g.fld(FLT, "v", i)))])))


@contract("C09")
def private_keys(g):
    """Exactly the underscore-prefixed entries are dropped."""
    n, m = g.count("n"), g.count("m")
    g.distinct(n, lambda i: g.fld(WORD, "k", i))
    g.distinct(m, lambda i: g.fld(LABEL, "l", i))
    val = lambda i: g.any("v", i, sample=lambda r: r.randrange(99))
    val2 = lambda i: g.any("u", i, sample=lambda r: r.choice([None, 0, "x"]))
    d = g.pydict([*g.rep(n, lambda i: [g.kv(g.cat("_", g.fld(WORD, "k", i)), val(i))]),
                  g.kv("__", 1), g.kv("", 4), g.kv("_", 2), g.kv("-_", 3),
                  *g.rep(m, lambda i: [g.kv(g.fld(LABEL, "l", i), val2(i))])])

    def run(d):
        out = filter_underscore(d)
        return out, out is d, list(out), len(d)
    return Case(run, [d], expect=g.T(
        g.D(g.kv("", 4), g.kv("-_", 3), g.rep(m, lambda i: [g.kv(g.fld(LABEL, "l", i), val2(i))])), False,
        g.L("", "-_", g.rep(m, lambda i: [g.fld(LABEL, "l", i)])), g.add(g.add(n, m), 4)))
