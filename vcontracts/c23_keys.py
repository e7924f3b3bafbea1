"""C23: canonical keys and texts."""
from castep_outputs.utilities.utility import normalise_key, normalise_string
from pyvc.contract import Case, contract

from .common import *

ALNUM = Lex("ALNUM", r"[A-Za-z0-9]+")
ALNUML = Lex("ALNUML", r"[a-z0-9]+")
JUNK = Lex("JUNK", r"[^A-Za-z0-9\u0080-\U0010ffff]+", lambda r: "".join(r.choice(" \t_-.,;:!?()[]/*+%&'\"<>=#~") for _ in range(r.randrange(1, 5))))
NONBLANK = Lex("NBLANK", r"\S+", lambda r: "".join(r.choice("aZ09_.-+*/:;,()[]") for _ in range(r.randrange(1, 7))))

GAP = Lex("GAP", r"[ \t\n]+", lambda r: "".join(r.choice(" \t\n") for _ in range(r.randrange(1, 4))))


def junk(g, name, on):
    return [g.fld(JUNK, name)] if on else []


EDGES = [dict(k=k, lead=a, trail=b) for k in (1, 2, 3, 4) for a in (0, 1) for b in (0, 1)]


@contract("C23", variants=EDGES, samples=20)
def key(g, k, lead, trail):
    """Words are lower-cased, every separator run is one underscore, none at the ends; twice is once."""
    ws = [g.fld(ALNUM, "w", i) for i in range(k)]
    parts = junk(g, "j-lead", lead)
    for i, w in enumerate(ws):
        parts += ([g.fld(JUNK, "j", i)] if i else []) + [w]
    parts += junk(g, "j-trail", trail)
    exp = g.lower(ws[0])
    for w in ws[1:]:
        exp = g.cat(exp, "_", g.lower(w))

    def run(s):
        one = normalise_key(s)
        return one, normalise_key(one)
    return Case(run, [g.cat(*parts)], expect=g.T(exp, exp))


@contract("C23", samples=10)
def key_of_separators(g):
    """A key with nothing but separators is empty."""
    def run(s):
        return normalise_key(s), normalise_key("")
    return Case(run, [g.fld(JUNK, "j")], expect=g.T("", ""))


@contract("C23", variants=EDGES, samples=20)
def text(g, k, lead, trail):
    ws = [g.fld(NONBLANK, "w", i) for i in range(k)]
    parts = [g.fld(GAP, "lead")] if lead else []
    for i, w in enumerate(ws):
        parts += ([g.fld(GAP, "gap", i)] if i else []) + [w]
    parts += [g.fld(GAP, "trail")] if trail else []
    exp = ws[0]
    for w in ws[1:]:
        exp = g.cat(exp, " ", w)

    def run(s):
        one = normalise_string(s)
        return one, normalise_string(one)
    return Case(run, [g.cat(*parts)], expect=g.T(exp, exp))


@contract("C23", samples=10)
def blank_text(g):
    def run(s):
        return normalise_string(s), normalise_string("")
    return Case(run, [g.fld(GAP, "gap")], expect=g.T("", ""))
