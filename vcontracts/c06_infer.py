"""C06: the inferred type can represent the value."""
from itertools import product

from castep_outputs.utilities.type_conv import determine_type, parse_int_or_float, to_type
from pyvc.contract import Case, contract

from .c05_convert import FALSES, PINT, RDEN, TRUES
from .common import *

FIXED = Lex("FIXED", r"[+-]?(?:\d+\.\d*|\.\d+)", lambda r: r.choice(["+1.5", "-.5", "5.", "0.125", "-12.0625", "0.0"]))
EXPO = Lex("EXPO", r"[+-]?(?:\d+\.\d*|\.\d+|\d+)[eE][+-]?\d{1,2}",
           lambda r: r.choice(["1e3", "-2.5E-07", "+.5e1", "3.E+02", "12E5"]))
RNUMS = Lex("RNUMS", r"[+-]?\d{1,6}", lambda r: r.choice(["1", "-2", "+3", "10"]))
PLAIN = Lex("PLAIN", r"[A-EG-SU-Za-eg-su-z_][A-Za-z0-9_]*", lambda r: r.choice(["BEEF", "none", "xc", "Gaussian", "i_1"]))
PLAINTF = Lex("PLAINTF", r"[TtFf][b-qs-zB-QS-Z0-9_][A-Za-z0-9_]*", lambda r: r.choice(["TDDFT", "fixed", "T1", "f_n", "tpsd"]))
DIGWORD = Lex("DIGWORD", r"\d+[A-DF-Za-df-z][A-Za-z0-9]*", lambda r: r.choice(["3D", "12abc", "1d3"]))
GAP = Lex("LGAP", r"[ \t\n]+", lambda r: "".join(r.choice(" \t\n") for _ in range(r.randrange(1, 3))))
KINDS = ("int", "fixed", "expo", "ratio")


def item(g, kind, i):
    """(text, is integer, value as float, value as int)"""
    if kind == "int":
        t = g.fld(PINT, "x", i)
        return t, g.flt(t), g.int(t)
    if kind == "ratio":
        a, b = g.fld(RNUMS, "a", i), g.fld(RDEN, "b", i)
        return g.cat(a, "/", b), g.ratio(a, b), None
    t = g.fld(FIXED if kind == "fixed" else EXPO, "x", i)
    return t, g.flt(t), None


def infer(data):
    """What the input echo readers do: infer once, convert each item."""
    typ = determine_type(data)
    if " " in data.strip():
        return typ, to_type(data.split(), typ)
    return typ, to_type(data, typ)


@contract("C06", variants=[dict(kinds=ks, pad=p) for n in (1, 2, 3) for ks in product(KINDS, repeat=n) for p in (0, 1)
                           if n < 3 or not p], samples=6)
def numbers(g, kinds, pad):
    parts, fl, ints = [], [], []
    for i, k in enumerate(kinds):
        t, f, n = item(g, k, i)
        parts += ([g.sp] if i or pad else []) + [t]
        fl.append(f)
        ints.append(n)
    if pad:
        parts.append(g.sp)
    whole = all(k == "int" for k in kinds)
    vals = ints if whole else fl
    return Case(infer, [g.cat(*parts)],
                expect=g.T(int if whole else float, vals[0] if len(kinds) == 1 else g.T(*vals)))


@contract("C06", samples=4)
def logicals(g):
    """Every spelling of a logical that is not itself a number."""
    yes, no = [x for x in TRUES if x != "1"], [x for x in FALSES if x != "0"]

    def run():
        return [infer(x) for x in yes], [infer(x) for x in no]
    return Case(run, [], expect=g.T(g.L(*[g.T(bool, True)] * len(yes)), g.L(*[g.T(bool, False)] * len(no))))


@contract("C06", variants=[dict(lead=a, trail=b) for a, b in ((1, 0), (0, 1), (1, 1))])
def padded_logicals(g, lead, trail):
    """Blanks around a logical never turn it into the other one."""
    pad = lambda x: g.cat(*([g.fld(GAP, "p")] if lead else []), x, *([g.fld(GAP, "q")] if trail else []))
    yes, no = [x for x in TRUES if x != "1"], [x for x in FALSES if x != "0"]
    texts = [g.pylist(*[pad(x) for x in xs]) for xs in (yes, no)]

    def run(yes, no):
        return [determine_type(x) is bool and to_type(x, bool) is not True for x in yes], \
               [determine_type(x) is bool and to_type(x, bool) is not False for x in no]
    return Case(run, texts, expect=g.T(g.L(*[False] * len(yes)), g.L(*[False] * len(no))))


@contract("C06", variants=[dict(lex=x) for x in ("PLAIN", "PLAINTF", "DIGWORD")], samples=20)
def word(g, lex):
    t = g.fld(dict(PLAIN=PLAIN, PLAINTF=PLAINTF, DIGWORD=DIGWORD)[lex], "w")
    return Case(infer, [t], expect=g.T(str, t))


@contract("C06", variants=[dict(kind=k) for k in KINDS], samples=20)
def number_then_word(g, kind):
    """A number followed by a word is text: no numeric type represents it."""
    t, f, n = item(g, kind, 0)
    w = g.fld(PLAIN, "w")
    return Case(infer, [g.cat(t, g.sp, w)], expect=g.T(str, g.T(t, w)))


NNEG = Lex("NNEG", r"\d+")


@contract("C06", variants=[dict(kinds=ks) for n in (1, 2, 3, 4) for ks in product(("nat", "fixed", "expo"), repeat=n)],
          samples=6)
def int_or_float(g, kinds):
    """A row of numbers is integral only when every number is."""
    ts, fl, ints = [], [], []
    for i, k in enumerate(kinds):
        if k == "nat":
            t = g.fld(NNEG, "x", i)
            fl.append(g.flt(t))
            ints.append(g.int(t))
        else:
            t, f, n = item(g, k, i)
            fl.append(f)
        ts.append(t)
    whole = all(k == "nat" for k in kinds)
    return Case(parse_int_or_float, [g.pylist(*ts)], expect=g.T(*(ints if whole else fl)))
