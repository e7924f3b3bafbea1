"""C03 / C04: line and section reading, line numbers."""
from castep_outputs.utilities.filewrapper import Block, FileWrapper
from pyvc.contract import Case, contract

from .common import *

LINE = Lex("LINE", r"[^\n]*", lambda r: r.choice(["", " ", "a b", "x = 3", "END", "  1.0 2.0", "é~"]))
TEXT = Lex("TEXT", r"[^\nES]*", lambda r: r.choice(["", " ", "a b", "x = 3", "nd", "TART", "  1.0 2.0"]))
NONBLANK = Lex("NONBLANK", r" *[A-Z][^\n]*", lambda r: r.choice(["A", "  B c", " C"]))


# ---------------------------------------------------------------------------------------------- harness (verified too)
def wrap(f, kind):
    if kind == "wrapper":
        return FileWrapper(f)
    if kind == "block":
        return Block.from_iterable(f)
    return f


def read_some(w, k):
    got = []
    for _ in range(k):
        got.append(next(w))
    return got


def reading(f, k, kind):
    w = wrap(f, kind)
    got = read_some(w, k)
    return got, list(w)


def step_back(f, k, kind):
    w = wrap(f, kind)
    read_some(w, k)
    w.rewind()
    return next(w), list(w)


def step_back_twice(f, k):
    w = FileWrapper(f)
    read_some(w, k)
    w.rewind()
    w.rewind()
    return next(w), list(w)


def step_back_two_block(f, k):
    w = Block.from_iterable(f)
    read_some(w, k)
    w.rewind()
    w.rewind()
    return next(w), next(w), list(w)


def block_back_at_start(f):
    w = Block.from_iterable(f)
    w.rewind()


def at_end(f, kind):
    w = wrap(f, kind)
    got = list(w)
    again = next(w, None)
    w.rewind()
    return got, again, next(w, None)


def linenos(f, k, base):
    """line numbers seen while reading, after the end and after stepping back"""
    w = FileWrapper(f)
    seen = [w.lineno]
    for _ in range(k):
        next(w)
        seen.append(w.lineno)
    return seen


def lineno_back(f, k):
    w = FileWrapper(f)
    read_some(w, k)
    w.rewind()
    a = w.lineno
    w.rewind()
    b = w.lineno
    next(w)
    return a, b, w.lineno


def lineno_end(f):
    w = FileWrapper(f)
    n = 0
    for _ in w:
        n = n + 1
    a = w.lineno
    next(w, None)
    b = w.lineno
    w.rewind()
    return n, a, b, w.lineno


def section(f, init, n_end, eof, kind):
    w = wrap(f, kind)
    b = Block.from_re(init, w, "START", "END", n_end=n_end, eof_possible=eof)
    return b.aslist(), list(w)


def section_first(f, n_end, kind):
    w = wrap(f, kind)
    init = next(w)
    b = Block.from_re(init, w, "START", "END", n_end=n_end)
    return list(b), list(w)


def section_lineno(f, skip):
    w = FileWrapper(f)
    read_some(w, skip)
    init = next(w)
    here = w.lineno
    b = Block.from_re(init, w, "START", "END")
    seen = []
    for _ in b:
        seen.append(b.lineno - here)
    return seen


def section_lineno_back(f, k):
    w = FileWrapper(f)
    init = next(w)
    b = Block.from_re(init, w, "START", "END")
    read_some(b, k)
    a = b.lineno
    b.rewind()
    c = b.lineno
    next(b)
    return c - a, b.lineno - a


def section_lineno_bounds(f, fore, back):
    w = FileWrapper(f)
    init = next(w)
    here = w.lineno
    b = Block.from_re(init, w, "START", "END")
    b.remove_bounds(fore, back)
    seen = []
    for _ in b:
        seen.append(b.lineno - here)
    return seen


def lines_of(f, n, eof, kind):
    w = wrap(f, kind)
    b = Block.get_lines(w, n, eof_possible=eof)
    return b.aslist()


def bounds(f, fore, back):
    b = Block.from_iterable(f)
    b.remove_bounds(fore, back)
    return b.aslist(), len(b), list(b)


def indexing(f, k):
    b = Block.from_iterable(f)
    return b[k], b[0], b[-1], list(b[1:]), len(b)


def nested_section(f):
    """a section taken out of a section"""
    w = FileWrapper(f)
    init = next(w)
    outer = Block.from_re(init, w, "START", "ENDOUT")
    first = next(outer)
    inner = Block.from_re(next(outer), outer, "SUB", "END$")
    return first, inner.aslist(), list(outer), list(w)


# ---------------------------------------------------------------------------------------------- contracts
KINDS = [dict(kind="wrapper"), dict(kind="block")]


def doc(g, n, last=True):
    return g.rep(n, lambda i: [g.line(g.fld(LINE, "l", i))])


def lines(g, lo, hi):
    return g.L(g.rep(hi, lambda i: [g.line(g.fld(LINE, "l", i))], lo=lo))


def line_at(g, i):
    return g.line(g.fld(LINE, "l", i))


def split(g, lo=0, room=0):
    """k lines read out of n, at least `room` left"""
    n, k = g.count("n", lo=lo + room), g.count("k", lo=lo)
    g.assume(g.le(g.add(k, room), n))
    return n, k


@contract("C03", variants=KINDS + [dict(kind="file")])
def every_line_once(g, kind):
    n, k = split(g)
    return Case(reading, [g.file(doc(g, n)), k, kind], expect=g.T(lines(g, 0, k), lines(g, k, n)))


@contract("C03", variants=KINDS)
def step_back_redelivers(g, kind):
    n, k = split(g, lo=1)
    return Case(step_back, [g.file(doc(g, n)), k, kind], expect=g.T(line_at(g, g.add(k, -1)), lines(g, k, n)))


@contract("C03")
def second_step_back_changes_nothing(g):
    n, k = split(g, lo=1)
    return Case(step_back_twice, [g.file(doc(g, n)), k], expect=g.T(line_at(g, g.add(k, -1)), lines(g, k, n)))


@contract("C03")
def section_steps_back_by_two(g):
    n, k = split(g, lo=2)
    return Case(step_back_two_block, [g.file(doc(g, n)), k],
                expect=g.T(line_at(g, g.add(k, -2)), line_at(g, g.add(k, -1)), lines(g, k, n)))


@contract("C03")
def section_cannot_step_before_start(g):
    n = g.count("n")
    return Case(block_back_at_start, [g.file(doc(g, n))], raises=(ValueError,))


@contract("C03", variants=KINDS)
def nothing_after_the_end(g, kind):
    n = g.count("n")
    return Case(at_end, [g.file(doc(g, n)), kind], expect=g.T(lines(g, 0, n), None, None))


def body(g, name, n):
    return g.rep(n, lambda i: [g.line(g.fld(TEXT, name, i))])


@contract("C03", variants=[dict(kind=k, eof=e) for k in ("file", "wrapper", "block") for e in (False, True)])
def section_between_markers(g, kind, eof):
    """Any number of end markers, the section ends at the n-th."""
    m, n, r = g.count("m"), g.count("ends", lo=1), g.count("rest")
    init = g.line(g.fld(TEXT, "s"), "START")
    parts = [g.rep(n, lambda e: [g.rep(g.count("b", e), lambda i: [g.line(g.fld(TEXT, "b", e, i))]),
                                 g.line(g.fld(TEXT, "e", e), "END")])]
    rest = g.rep(r, lambda i: [g.line(g.fld(LINE, "r", i))])
    return Case(section, [g.file(*parts, rest), init, n, eof, kind], expect=g.T(g.L(init, *parts), g.L(rest)))


@contract("C03", variants=[dict(kind=k, n_end=e) for k in ("file", "wrapper", "block") for e in (1, 2)])
def section_from_current_line(g, kind, n_end):
    r = g.count("rest")
    init = g.line(g.fld(TEXT, "s"), "START", g.fld(TEXT, "t"))
    parts = []
    for e in range(n_end):
        parts += [body(g, f"b{e}", g.count(f"nb{e}")), g.line(g.fld(TEXT, "e", e), "END", g.fld(TEXT, "u", e))]
    rest = g.rep(r, lambda i: [g.line(g.fld(LINE, "r", i))])
    return Case(section_first, [g.file(init, *parts, rest), n_end, kind], expect=g.T(g.L(init, *parts), g.L(rest)))


@contract("C03", variants=[dict(kind=k) for k in ("file", "wrapper", "block")])
def not_a_section(g, kind):
    r = g.count("rest")
    init = g.line(g.fld(Lex("NOSTART", r"[^\nS]*", lambda r: r.choice(["", "a", " TART"])), "s"))
    rest = g.rep(r, lambda i: [g.line(g.fld(LINE, "r", i))])
    return Case(section, [g.file(rest), init, 1, False, kind], expect=g.T(g.L(), g.L(rest)))


@contract("C03", variants=[dict(kind=k) for k in ("file", "wrapper", "block")])
def section_cut_short_is_an_error(g, kind):
    init = g.line(g.fld(TEXT, "s"), "START")
    b = body(g, "b", g.count("nb"))
    return Case(section, [g.file(b, name="x.castep"), init, 1, False, kind], raises=(OSError,))


@contract("C03", variants=[dict(kind=k) for k in ("file", "wrapper", "block")])
def section_with_too_few_ends_is_an_error(g, kind):
    init = g.line(g.fld(TEXT, "s"), "START")
    b = [body(g, "b", g.count("nb")), g.line(g.fld(TEXT, "e"), "END"), body(g, "c", g.count("nc"))]
    return Case(section, [g.file(*b), init, 2, False, kind], raises=(OSError,))


@contract("C03", variants=[dict(kind=k) for k in ("file", "wrapper", "block")])
def section_may_run_to_the_end(g, kind):
    init = g.line(g.fld(TEXT, "s"), "START")
    b = body(g, "b", g.count("nb"))
    return Case(section, [g.file(b), init, 1, True, kind], expect=g.T(g.L(init, b), g.L()))


@contract("C03", variants=[dict(kind=k) for k in ("file", "wrapper", "block")])
def given_number_of_lines(g, kind):
    n, k = split(g, room=1)
    return Case(lines_of, [g.file(doc(g, n)), k, False, kind], expect=lines(g, 0, k))


@contract("C03", variants=[dict(kind=k, eof=e) for k in ("file", "wrapper", "block") for e in (False, True)])
def too_few_lines(g, kind, eof):
    n, more = g.count("n"), g.count("more", lo=1)
    f = g.file(doc(g, n))
    if eof:
        return Case(lines_of, [f, g.add(n, more), True, kind], expect=lines(g, 0, n))
    return Case(lines_of, [f, g.add(n, more), False, kind], raises=(OSError,))


@contract("C03", variants=[dict(fore=a, back=b) for a in (0, 1, 2) for b in (0, 1, 2)])
def bounding_lines(g, fore, back):
    n = g.count("n", lo=fore + back)
    return Case(bounds, [g.file(doc(g, n)), fore, back],
                expect=g.T(lines(g, fore, g.add(n, -back)), g.add(n, -fore - back), lines(g, fore, g.add(n, -back))))


@contract("C03")
def section_by_index(g):
    n, k = g.count("n", lo=1), g.count("k")
    g.assume(g.le(g.add(k, 1), n))
    return Case(indexing, [g.file(doc(g, n)), k],
                expect=g.T(line_at(g, k), line_at(g, 0), line_at(g, g.add(n, -1)), lines(g, 1, n), n))


@contract("C03")
def section_inside_a_section(g):
    nb, nc, nd = g.count("nb"), g.count("nc"), g.count("nd")
    start, sub, end = g.line("START"), g.line("SUB"), g.line("END")
    b, c = body(g, "b", nb), body(g, "c", nc)
    last = g.line("ENDOUT")
    rest = g.rep(nd, lambda i: [g.line(g.fld(LINE, "r", i))])
    return Case(nested_section, [g.file(start, sub, b, end, c, last, rest)],
                expect=g.T(start, g.L(sub, b, end), g.L(c, last), g.L(rest)))


# ---- C04
@contract("C04")
def number_of_lines_read(g):
    n, k = split(g)
    return Case(linenos, [g.file(doc(g, n)), k, 0], expect=g.L(0, g.rep(k, lambda i: [g.add(i, 1)])))


@contract("C04")
def number_after_stepping_back(g):
    n, k = split(g, lo=1)
    return Case(lineno_back, [g.file(doc(g, n)), k], expect=g.T(g.add(k, -1), g.add(k, -1), k))


@contract("C04")
def number_at_the_end(g):
    n = g.count("n")
    return Case(lineno_end, [g.file(doc(g, n))], expect=g.T(n, n, n, n))


@contract("C04")
def section_numbers_follow_the_file(g):
    """Line i of a section starting on line L of the file reports L + i."""
    p, nb = g.count("skip"), g.count("nb")
    f = g.file(doc(g, p), g.line("START"), body(g, "b", nb), g.line("END"))
    return Case(section_lineno, [f, p], expect=g.L(g.rep(g.add(nb, 2), lambda i: [g.add(i, 0)])))


@contract("C04")
def section_number_steps_back(g):
    nb, k = g.count("nb"), g.count("k", lo=1)
    g.assume(g.le(k, g.add(nb, 2)))
    f = g.file(g.line("START"), body(g, "b", nb), g.line("END"))
    return Case(section_lineno_back, [f, k], expect=g.T(-1, 0))


@contract("C04", variants=[dict(fore=1, back=1), dict(fore=2, back=1), dict(fore=1, back=2)])
def section_numbers_without_bounds(g, fore, back):
    nb = g.count("nb", lo=2)
    f = g.file(g.line("START"), body(g, "b", nb), g.line("END"))
    return Case(section_lineno_bounds, [f, fore, back],
                expect=g.L(g.rep(g.add(nb, 2 - fore - back), lambda i: [g.add(i, fore)])))
