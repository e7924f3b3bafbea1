"""C11: lazy access to a trajectory's frames.

What a frame's lines mean is C12's: here parse_md_geom_frame is replaced by its contract, "the value of the block's nonblank lines", and any
nonblank lines of one width stand for a frame's."""
from castep_outputs.parsers.md_geom_file_parser import parse_md_geom_file, parse_md_geom_frame
from castep_outputs.tools.md_geom_parser import MDGeomParser
from pyvc.contract import Case, contract
from pyvc.fsmodel import with_stubs

from .common import *

ROW = Lex("ROW", r"[!-~][ -~]{10}[!-~]", lambda r: f"{r.uniform(10, 99):.7f}".ljust(10, "0")[:10] + r.choice([" E", "-x", "h ", ">F"]).replace("h ", "h1"))


def lines_of(block):
    return [line for line in block if line.strip()]


STUBS = [(parse_md_geom_frame, lines_of)]


def frames(g, n, m, comments=1, tight=False):
    return [g.line(" BEGIN header"), *[g.line(" ", g.fld(WORD, "note", c)) for c in range(comments)], g.line(" END header"), *([] if tight else [g.line()]),
            g.rep(n, lambda i: [g.rep(m, lambda r: [g.line(" ", g.fld(ROW, "row", i, r))]), g.line()])]


def value(g, i, m):
    return g.L(g.rep(m, lambda r: [g.line(" ", g.fld(ROW, "row", i, r))]))


def trajectory(g, *named, comments=1, tight=False):
    """A file of n frames and indices of some of them."""
    m, ks = g.count("m", lo=1), [g.count(k) for k in named]
    n = g.add(g.add(ks[0], 1) if ks else 1, g.count("more"))
    for k in ks[1:]:
        g.assume(g.lt(k, n))
    return g.path(g.cat(g.tmpdir(), "/a.md"), *frames(g, n, m, comments, tight), even=True), n, m, ks


def reported(g, n, k, last):
    """What is reported next after frame k, the last one or another."""
    if last:
        g.assume(g.le(n, g.add(k, 1)))
        return None
    g.assume(g.lt(g.add(k, 1), n))
    return g.add(k, 1)


def case(f, args, expect, **kw):
    return Case(with_stubs, [STUBS, f, args], expect=expect, **kw)


LAST = [dict(last=x) for x in (False, True)]


def opened(path):
    p = MDGeomParser(path)
    return len(p), p.next_frame, p.read_next()


def one(path, j):
    p = MDGeomParser(path)
    return len(p), p.next_frame, p[j], p.next_frame


def two(path, i, j):
    p = MDGeomParser(path)
    return p[i], p[j], p.next_frame


def thence(path, i, j):
    p = MDGeomParser(path)
    p[i]
    p[j]
    return p.read_next(), p.next_frame


def position(p):
    """Where the file stands, as far as it can be seen."""
    h = getattr(p, "_handle", None)
    return None if h is None else h.tell()


def same_state(path, i, j):
    p = MDGeomParser(path)
    q = MDGeomParser(path)
    p[i]
    p[j]
    q[j]
    return p.next_frame == q.next_frame, position(p) == position(q)


def beyond(path, i, j):
    p = MDGeomParser(path)
    p[i]
    try:
        p[j]
    except IndexError:
        return p.next_frame
    return "no error"


def exhausted(path, i):
    p = MDGeomParser(path)
    p[i]
    try:
        p.read_next()
    except StopIteration:
        return "stop", p.next_frame, p[i]
    return "no error"


@contract("C11", variants=LAST)
def open_file(g, last):
    path, n, m, _ = trajectory(g)
    k = g.count("zero", hi=0)
    reported(g, n, 0, last)
    return case(opened, g.T(path), g.T(n, 0, value(g, 0, m)))


@contract("C11", variants=LAST)
def one_access(g, last):
    path, n, m, (j,) = trajectory(g, "j")
    return case(one, g.T(path, j), g.T(n, 0, value(g, j, m), reported(g, n, j, last)))


@contract("C11", variants=LAST)
def two_accesses(g, last):
    path, n, m, (i, j) = trajectory(g, "i", "j")
    return case(two, g.T(path, i, j), g.T(value(g, i, m), value(g, j, m), reported(g, n, j, last)))


@contract("C11", variants=LAST)
def negative(g, last):
    """-k is the k-th frame from the end."""
    path, n, m, (i, j) = trajectory(g, "i", "j")
    return case(two, g.T(path, i, g.sub(j, n)), g.T(value(g, i, m), value(g, j, m), reported(g, n, j, last)))


@contract("C11", variants=LAST)
def sequential(g, last):
    """Reading goes on after the frame accessed last."""
    path, n, m, (i, j) = trajectory(g, "i", "j")
    g.assume(g.lt(g.add(j, 1), n))
    k = g.add(j, 1)
    return case(thence, g.T(path, i, j), g.T(value(g, k, m), reported(g, n, k, last)))


@contract("C11")
def history(g):
    """The step of the induction over histories: what came before an access leaves no trace in the state."""
    path, n, m, (i, j) = trajectory(g, "i", "j")
    return case(same_state, g.T(path, i, j), g.T(True, True))


@contract("C11", variants=[dict(last=x, side=s) for x in (False, True) for s in ("above", "below")])
def out_of_range(g, last, side):
    path, n, m, (i,) = trajectory(g, "i")
    far = g.count("far")
    j = g.add(n, far) if side == "above" else g.sub(g.sub(-1, n), far)
    return case(beyond, g.T(path, i, j), reported(g, n, i, last))


def read_between(path, i, j):
    p = MDGeomParser(path)
    p[i]
    a = p.read_next()
    return a, p[j], p.next_frame


def thrice(path, i, j, k):
    p = MDGeomParser(path)
    p[i]
    p[j]
    return p[k], p.next_frame


@contract("C11", variants=LAST)
def access_after_reading(g, last):
    path, n, m, (i, j) = trajectory(g, "i", "j")
    k = g.add(i, 1)
    g.assume(g.lt(k, n))
    return case(read_between, g.T(path, i, j), g.T(value(g, k, m), value(g, j, m), reported(g, n, j, last)))


@contract("C11", variants=LAST)
def three_accesses(g, last):
    path, n, m, (i, j, k) = trajectory(g, "i", "j", "k")
    return case(thrice, g.T(path, i, j, k), g.T(value(g, k, m), reported(g, n, k, last)))


@contract("C11")
def after_the_end(g):
    path, n, m, _ = trajectory(g)
    k = g.sub(n, 1)
    return case(exhausted, g.T(path, k), g.T("stop", None, value(g, k, m)))


# ------------------------------------------------------------------------------------------------ iteration
def everything(path, i):
    p = MDGeomParser(path)
    p[i]
    return [x for x in p], p.next_frame


def jumping(path, j):
    p = MDGeomParser(path)
    it = iter(p)
    a = next(it)
    b = it.send(j)
    k = p.next_frame
    try:
        return a, b, k, next(it)
    except StopIteration:
        return a, b, k, "stop"


def outside(path, j):
    """A jump out of the file."""
    p = MDGeomParser(path)
    it = iter(p)
    next(it)
    try:
        it.send(j)
    except (IndexError, StopIteration):
        return "no such frame", p.next_frame
    return "a frame"


def absent(path):
    return MDGeomParser(path)


def rest(path, j):
    p = MDGeomParser(path)
    it = iter(p)
    next(it)
    it.send(j)
    return [x for x in it]


def interleaved(path, i, j):
    """Accesses between the steps of an iteration."""
    p = MDGeomParser(path)
    it = iter(p)
    it.send(None)
    it.send(i)
    p[j]
    return next(it), p.next_frame


def all_at_once(path):
    return parse_md_geom_file(path)


def all_frames(g, n, m):
    return g.L(g.rep(n, lambda i: [value(g, i, m)]))


@contract("C11")
def full_read(g):
    """What a full read gives."""
    path, n, m, _ = trajectory(g)
    return case(all_at_once, g.T(path), all_frames(g, n, m))


@contract("C11")
def iteration(g):
    path, n, m, (i,) = trajectory(g, "i")
    return case(everything, g.T(path, i), g.T(all_frames(g, n, m), None))


JUMPS = [dict(last=x, side=s) for x in (False, True) for s in "+-"]


@contract("C11", variants=JUMPS)
def jump(g, last, side):
    path, n, m, (j,) = trajectory(g, "j")
    k = reported(g, n, j, last)
    return case(jumping, g.T(path, {"+": j, "-": g.sub(j, n)}[side]),
                g.T(value(g, 0, m), value(g, j, m), k, "stop" if last else value(g, k, m)))


@contract("C11", variants=[dict(side=s) for s in "+-"])
def jump_and_go_on(g, side):
    path, n, m, (j,) = trajectory(g, "j")
    return case(rest, g.T(path, {"+": j, "-": g.sub(j, n)}[side]),
                g.L(g.rep(g.sub(n, g.add(j, 1)), lambda i: [value(g, g.add(g.add(i, j), 1), m)])))


@contract("C11", variants=LAST)
def access_while_iterating(g, last):
    path, n, m, (i, j) = trajectory(g, "i", "j")
    g.assume(g.lt(g.add(i, 1), n))
    k = g.add(i, 1)
    return case(interleaved, g.T(path, i, j), g.T(value(g, k, m), reported(g, n, k, last)))


# ------------------------------------------------------------------------------------------------ several frames
def several(path, kind, i, *js):
    p = MDGeomParser(path)
    p[i]
    return p[kind(js)], p.next_frame


def sliced(path, i, a, b):
    p = MDGeomParser(path)
    p[i]
    return p[a:b]


def sliced_by(path, a, b, c):
    p = MDGeomParser(path)
    return p[a:b:c]


@contract("C11", variants=[dict(kind=k, last=x) for k in ("list", "tuple") for x in (False, True)])
def index_list(g, kind, last):
    path, n, m, (i, j, k) = trajectory(g, "i", "j", "k")
    return case(several, g.T(path, dict(list=list, tuple=tuple)[kind], i, j, g.sub(k, n)),
                g.T(g.L(value(g, j, m), value(g, k, m)), reported(g, n, k, last)))


@contract("C11", variants=[dict(a=a, b=b) for a in (None, "+", "-") for b in (None, "+", "-") if a is None or b])
def slices(g, a, b):
    """p[i:j] for ends counted from either side, and none."""
    path, n, m, (i,) = trajectory(g, "i")
    lo = g.count("lo") if a else 0
    if b:
        hi = g.add(lo, g.count("size"))
        g.assume(g.lt(hi, n))
    else:
        hi = n
    first = {None: None, "+": lo, "-": g.sub(lo, n)}[a]
    last = {None: None, "+": hi, "-": g.sub(hi, n)}[b]
    return case(sliced, g.T(path, i, first, last), g.L(g.rep(g.sub(hi, lo), lambda f: [value(g, g.add(f, lo), m)])))


@contract("C11", variants=[dict(a=a, before=b) for a in "+-" for b in (0, 1)])
def slices_to_the_end(g, a, before):
    """p[i:], after an access of its first frame or of the one before."""
    path, n, m, (i,) = trajectory(g, "i")
    lo = g.add(i, before)
    g.assume(g.lt(lo, n))
    return case(sliced, g.T(path, i, {"+": lo, "-": g.sub(lo, n)}[a], None),
                g.L(g.rep(g.sub(n, lo), lambda f: [value(g, g.add(f, lo), m)])))


@contract("C11", variants=[dict(last=x, side=s) for x in (False, True) for s in ("above", "below")])
def jump_outside(g, last, side):
    """A jump out of the file gives no frame and moves nothing."""
    path, n, m, _ = trajectory(g)
    far = g.count("far")
    j = g.add(n, far) if side == "above" else g.sub(g.sub(-1, n), far)
    return case(outside, g.T(path, j), g.T("no such frame", reported(g, n, 0, last)))


@contract("C11", variants=[dict(comments=c, tight=t) for c in (0, 1, 2) for t in (False, True) if (c, t) != (1, False)])
def headers(g, comments, tight):
    """Titles of other lengths, and no blank line after the header."""
    path, n, m, (i, j) = trajectory(g, "i", "j", comments=comments, tight=tight)
    return case(two, g.T(path, i, j), g.T(value(g, i, m), value(g, j, m), reported(g, n, j, False)))


@contract("C11")
def no_file(g):
    name = g.cat(g.tmpdir(), "/none.md")
    g.is_file(name, False)
    return case(absent, g.T(name), None, raises=FileNotFoundError)


@contract("C11", mode="bounded", variants=[dict(step=k) for k in (-3, -2, -1, 2, 3)])
def stepped_slices(g, step):
    path, n, m, (a, b) = trajectory(g, "a", "b")
    return case(sliced_by, g.T(path, a, b, step), g.L(*[value(g, i, m) for i in range(a, b, step)]))


# ------------------------------------------------------------------------------------------------ frames as printed
FWN = Lex("FWN", r"\d\.\d{8}E[+-]\d{2}", lambda r: f"{r.uniform(0, 9.9):.8E}")
FWS = Lex("FWS", r"[A-Z][a-z]", lambda r: r.choice(["He", "Si", "Fe", "Cu"]))
FWI = Lex("FWI", r"[1-9]\d", lambda r: str(r.randrange(10, 99)))


def printed(g, i, na):
    """A frame in columns: time, energies, cell, positions."""
    num = lambda name, *k: ["   ", g.fld(FWN, name, *k)]
    return [g.line("      ", *num("time", i)),
            g.line("    ", *[p for c in range(3) for p in num("E", i, c)], "  <-- E"),
            *[g.line("    ", *[p for c in range(3) for p in num("h", i, r, c)], "  <-- h") for r in range(3)],
            g.rep(na, lambda a: [g.line(" ", g.fld(FWS, "spec", i, a), "  ", g.fld(FWI, "ind", i, a),
                                        *[p for c in range(3) for p in num("R", i, a, c)], "  <-- R")]),
            g.line()]


def read(g, i, na):
    num = lambda name, *k: [g.flt(g.fld(FWN, name, *k, c)) for c in range(3)]
    e, h = g.L(g.L(*num("E", i))), g.L(*[g.L(*num("h", i, r)) for r in range(3)])

    def ion(a):
        v = g.T(*num("R", i, a))
        return g.kv(g.T(g.fld(FWS, "spec", i, a), g.int(g.fld(FWI, "ind", i, a))), g.D(g.kv("R", v), g.kv("position", v)))
    return g.D(g.kv("time", g.flt(g.fld(FWN, "time", i))), g.kv("E", e), g.kv("energy", e), g.kv("h", h), g.kv("lattice_vectors", h),
               g.kv("ions", g.D(g.rep(na, ion))))


def both(path, i, j):
    p = MDGeomParser(path)
    p[i]
    return p[j], p.next_frame, parse_md_geom_file(path)


@contract("C11", variants=LAST)
def as_printed(g, last):
    """Nothing replaced: an access after another, next to a full read."""
    na, i, j = g.count("na"), g.count("i"), g.count("j")
    n = g.add(g.add(i, 1), g.count("more"))
    g.assume(g.lt(j, n))
    g.each(n, lambda f: g.distinct(na, lambda a: g.T(g.fld(FWS, "spec", f, a), g.int(g.fld(FWI, "ind", f, a)))))
    path = g.path(g.cat(g.tmpdir(), "/a.md"), g.line(" BEGIN header"), g.line(" ", g.fld(WORD, "note")), g.line(" END header"), g.line(),
                  g.rep(n, lambda f: printed(g, f, na)), even=True)
    return Case(both, [path, i, j], expect=g.T(read(g, j, na), reported(g, n, j, last), g.L(g.rep(n, lambda f: [read(g, f, na)]))))
