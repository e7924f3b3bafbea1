"""C07: number extraction."""
import re
from itertools import product

import castep_outputs.utilities.castep_res as REs
from castep_outputs.utilities.castep_res import get_numbers, labelled_floats
from pyvc.contract import Case, contract

from .c05_convert import PINT
from .c06_infer import EXPO, FIXED
from .common import *

LEXES = dict(int=PINT, fixed=FIXED, expo=EXPO)
WORDS = Lex("WORDS", r"[A-Za-z(\[][A-Za-z()\[\]|:,=*<>]*", lambda r: r.choice(["energy", "(eV)", "Total:", "|", "a=", "x", "<--", "e"]
                                                                              if False else ["energy", "(eV)", "Total:", "a=", "x", "(x,y)"]))
PUNCT = Lex("PUNCT", r"[|:=*<>,()]+", lambda r: r.choice(["|", "*", "=", "<", ":"]))


def number(g, kind, i):
    return g.fld(LEXES[kind], "x", i)


@contract("C07", variants=[dict(kinds=ks) for n in (1, 2, 3) for ks in product(LEXES, repeat=n)], samples=8)
def bare_numbers(g, kinds):
    """Blank-separated numbers, leading and trailing blanks, newline."""
    xs = [number(g, k, i) for i, k in enumerate(kinds)]
    return Case(get_numbers, [g.line(g.sp0, xs[0], *[p for x in xs[1:] for p in (g.sp, x)], g.sp0)], expect=g.L(*xs))


@contract("C07", variants=[dict(kinds=ks) for n in (1, 2, 3) for ks in product(LEXES, repeat=n)], samples=8)
def among_labels(g, kinds):
    """Words and punctuation before, between and after the numbers."""
    parts = [g.sp0, g.fld(WORDS, "w")]
    xs = []
    for i, k in enumerate(kinds):
        x = number(g, k, i)
        xs.append(x)
        parts += [g.sp, g.fld(PUNCT, "p", i), g.sp, x, g.sp, g.fld(WORDS, "w", i)]
    return Case(get_numbers, [g.line(*parts)], expect=g.L(*xs))


@contract("C07", variants=[dict(n=n, kind=k) for n in (4, 6, 9, 12) for k in LEXES], samples=8)
def long_rows(g, n, kind):
    xs = [number(g, kind, i) for i in range(n)]
    return Case(get_numbers, [g.line(*[p for x in xs for p in (g.sp, x)])], expect=g.L(*xs))


@contract("C07", samples=8)
def no_numbers(g):
    return Case(get_numbers, [g.line(g.sp0, g.fld(WORDS, "w"), g.sp, g.fld(PUNCT, "p"), g.sp0)], expect=g.L())


@contract("C07", variants=[dict(kinds=ks) for n in (1, 2, 3) for ks in product(LEXES, repeat=n)] +
          [dict(kinds=("fixed",) * n) for n in (4, 6, 8)], samples=8)
def labelled_columns(g, kinds):
    """A label followed by n numeric columns, each under its own name."""
    names = [f"c{i}" for i in range(len(kinds))]
    xs = [number(g, k, i) for i, k in enumerate(kinds)]

    def run(line):
        m = re.match(r"\s*(?P<lab>[A-Z][a-z]*)" + labelled_floats(names) + r"\s*$", line)
        return m.groupdict()
    lab = g.fld(SPEC, "lab")
    return Case(run, [g.line(g.sp0, lab, *spaced(g, xs), g.sp0)],
                expect=g.D(g.kv("lab", lab), *[g.kv(c, x) for c, x in zip(names, xs)]))


@contract("C07", variants=[dict(kinds=ks) for ks in product(LEXES, repeat=3)], samples=8)
def counted_columns(g, kinds):
    """Several columns under one name: the group holds exactly those columns."""
    xs = [number(g, k, i) for i, k in enumerate(kinds)]

    def run(line):
        m = re.match(labelled_floats(("val",), counts=(3,)), line)
        return m["val"].split()
    return Case(run, [g.line(*spaced(g, xs))], expect=g.L(*xs))


@contract("C07", variants=[dict(sep=s) for s in (":", ",")], samples=8)
def separated_columns(g, sep):
    a, b = g.fld(FIXED, "a"), g.fld(EXPO, "b")

    def run(line):
        m = re.match(r"\w+" + labelled_floats(("u", "v"), sep=rf"\s*{sep}\s*"), line)
        return m.group("u", "v")
    return Case(run, [g.line("lab", g.sp0, sep, g.sp, a, sep, b)], expect=g.T(a, b))


@contract("C07", variants=[dict(sp=s, kind=k) for s in ("plain", "tag", "lab", "both") for k in LEXES], samples=8)
def atom_row(g, sp, kind):
    """Species (optionally tagged and labelled), index and a three-vector."""
    spec = [g.fld(SPEC, "s")]
    if sp in ("tag", "both"):
        spec += [":", g.fld(LABEL, "tag")]
    if sp in ("lab", "both"):
        spec += [" [", g.fld(LABEL, "lab"), "]"]
    spec = g.cat(*spec)
    ind = g.fld(INT, "i")
    xs = [number(g, kind, i) for i in range(3)]

    def run(line):
        return REs.ATOMIC_DATA_3VEC.search(line).groupdict()
    return Case(run, [g.line("  * ", spec, g.sp, ind, *spaced(g, xs), "  *")],
                expect=g.D(g.kv("spec", spec), g.kv("index", ind), *[g.kv(c, x) for c, x in zip("xyz", xs)]))


@contract("C07", variants=[dict(tag=t, lab=q, sp=s) for t in (0, 1) for q in (0, 1) for s in (0, 1)], samples=8)
def atom_parts(g, tag, lab, sp):
    spec, t, q = g.fld(SPEC, "s"), g.fld(LABEL, "tag"), g.fld(LABEL, "lab")
    txt = g.cat(spec, *([":", t] if tag else []), *([" "] if sp and lab else []), *(["[", q, "]"] if lab else []))
    return Case(REs.get_atom_parts, [txt],
                expect=g.D(g.kv("species", spec), *([g.kv("tag", t)] if tag else []), *([g.kv("label", q)] if lab else [])))
