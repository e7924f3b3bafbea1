"""C10: comment stripping."""
from castep_outputs.utilities.filewrapper import Block, FileWrapper
from castep_outputs.utilities.utility import strip_comments
from pyvc.contract import Case, contract

from .common import *

TOKEN = Lex("TOKEN", r"[A-Za-z0-9_:=]([A-Za-z0-9_:= ]*[A-Za-z0-9_:=])?",
            lambda r: r.choice(["a", "x : 1", "cut_off = 300", "C 0 0 0", "end"]))
AFTER = Lex("AFTER", r"[^\n\t]*[^\s]", lambda r: r.choice([" note", "# ! more", "// x", " a  b", "*.|", "c.d", " <!-- %"]))
NEAR = Lex("NEAR", r"[A-Za-z](/ ?[A-Za-z]| [A-Za-z])*", lambda r: r.choice(["a/b", "a / b", "x y/z"]))
MARKS = {"default": "#!", "hash": "#", "slashes": {"//"}, "both": {"//", "#"}, "star": "*", "dot": {"."}, "html": {"<!--", "%%"},
         "paren": {"(*", "|"}}
PROPER = Lex("PROPER", r"[ABCDE]", lambda r: r.choice("ABCDE"))


def first(marks):
    return sorted(MARKS[marks])


def row(g, kind, marks, inline, name, *i):
    """(line, [kept line])"""
    t, after = g.fld(TOKEN, name, *i), g.fld(AFTER, name + "-c", *i)
    lead, trail, sp = g.fld(WS0, name + "-l", *i), g.fld(WS0, name + "-t", *i), g.fld(WS0, name + "-s", *i)
    if kind == "content":
        return g.line(lead, t, trail), [g.cat(lead, t)]
    if kind == "near":                      # part of a multi-character mark is no mark
        t = g.fld(NEAR, name + "-n", *i)
        return g.line(lead, t, trail), [g.cat(lead, t)]
    if kind == "blank":
        return g.line(lead), []
    n = int(kind[-1])
    if kind[0] == "b":                      # nothing after the mark
        kind, after = kind[1:], ""
    m = first(marks)[n % len(first(marks))]
    if kind.startswith("comment"):
        return g.line(lead, m, after, trail), []
    whole = g.cat(lead, t, sp, m, after)
    return g.line(lead, t, sp, m, after, trail), [g.cat(lead, t) if inline else whole]


KINDS = ("content", "blank", "comment0", "comment1", "inline0", "inline1", "bcomment0", "binline0")
VARIANTS = [dict(kind=k, marks=m, inline=i) for m in MARKS for k in KINDS for i in (False, True)
            if not (k[-1] == "1" and len(first(m)) == 1)] + \
           [dict(kind="near", marks=m, inline=i) for m in ("slashes", "both") for i in (False, True)]


@contract("C10", variants=VARIANTS, samples=6)
def lines_of_a_kind(g, kind, marks, inline):
    """Any number of lines of one kind between any number of content lines."""
    n, m, k = g.count("n"), g.count("m"), g.count("k")
    lines, kept = [], []
    for name, cnt, kd in (("p", n, "content"), ("q", m, kind), ("r", k, "content")):
        lines.append(g.rep(cnt, lambda i, name=name, kd=kd: [row(g, kd, marks, inline, name, i)[0]]))
        kept.append(g.rep(cnt, lambda i, name=name, kd=kd: row(g, kd, marks, inline, name, i)[1]))

    def run(f):
        return [*strip_comments(f, comment_char=MARKS[marks], remove_inline=inline)]
    return Case(run, [g.file(*lines)], expect=g.L(*kept))


@contract("C10", variants=[dict(src=s, inline=i) for s in ("default", "wrapper", "block") for i in (False, True)], samples=6)
def sources(g, src, inline):
    """The default marks, and every kind of source: a file, a wrapped file, a section."""
    n = g.count("n")
    lines, kept = [], []
    for j, kd in enumerate(("content", "comment0", "inline0", "blank", "bcomment1", "binline1", "content")):
        a, b = row(g, kd, "default", inline, f"z{j}")
        lines.append(a)
        kept.append(b)
    lines.append(g.rep(n, lambda i: [row(g, "content", "default", inline, "p", i)[0]]))
    kept.append(g.rep(n, lambda i: row(g, "content", "default", inline, "p", i)[1]))

    def run(f):
        if src == "wrapper":
            f = FileWrapper(f)
        elif src == "block":
            f = Block.from_iterable(f)
        out = strip_comments(f, remove_inline=inline)
        return isinstance(out, Block), [*out]
    return Case(run, [g.file(*lines)], expect=g.T(True, g.L(*kept)))
