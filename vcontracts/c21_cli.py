"""C21: the command line parses each requested file once, with its type."""
import argparse
import io
import sys

from castep_outputs.cli import args as cli
from castep_outputs.cli import castep_outputs_main as main
from castep_outputs.utilities import dumpers
from pyvc.contract import Case, contract
from pyvc.doc import Lex
from pyvc.fsmodel import with_stubs

from .c20_files import STEM, TYPES

NAMES = list(TYPES)
DOTTED = Lex("DOTTED", r"[A-Za-z0-9_\-]+(?:\.[0-9]+)?", lambda r: r.choice(["Si", "si2-md", "run_0.1", "castep", "4He", "a.2"]))
FILE = Lex("FILE", r"[A-Za-z0-9_\-]+", lambda r: "".join(r.choice("abcdefgh0123456789_-") for _ in range(9)))


class Parsed:
    """What argparse returned."""

    def __init__(self, ns):
        self.ns = ns

    def parse_args(self, *a):
        return self.ns


def expand(options, to_parse):
    """parse_args on options as argparse returns them; the files of each type, as extract_parsables gives them."""
    ns = argparse.Namespace(**options)

    def parser():
        return Parsed(ns)
    got = with_stubs([(cli.get_parser, parser)], cli.parse_args, [to_parse])
    return cli.extract_parsables(got)


def namespace(g, seeds, given, inc, inc_all):
    items = [g.kv("seedname", seeds), g.kv("log", "WARNING"), g.kv("output", None), g.kv("out_format", "json"),
             g.kv("testing", False), g.kv("inc_all", inc_all)]
    for t in NAMES:
        items += [g.kv(f"inc_{t}", inc(t)), g.kv(t, given(t))]
    return g.pydict(*items)


@contract("C21", variants=[dict(what=w, dotted=d, errs=k) for w in ("default", "all", "chosen", "to_parse") for d in (False, True)
                           for k in (0, 1, 2, "any")],
          samples=30, merging=True)
def one_seed(g, what, dotted, errs):
    """A seed that is no file: exactly its existing files of the included types, and its per-process error files."""
    d = g.tmpdir()
    stem = g.fld(STEM, "stem") if not dotted else g.cat(g.fld(STEM, "stem"), ".", g.fld(STEM, "tail"))
    seed = g.cat(d, "/", stem)
    g.is_file(seed, False)
    exists = {t: g.flag("exists", n) for n, t in enumerate(NAMES)}
    for t in NAMES:
        g.is_file(g.cat(seed, ".", t), exists[t])
    if errs == "any":
        k = g.count("errs")
        err = g.rep(k, lambda i: [g.cat(seed, ".", g.fld(FILE, "rank", i), ".err")])
    else:
        err = [g.cat(seed, ".", g.fld(FILE, f"rank{i}"), ".err") for i in range(errs)]
    err = g.globs(d, g.cat(stem, ".*.err"), err)
    n = {t: g.count("given", k) for k, t in enumerate(NAMES)}
    given = {t: g.rep(n[t], lambda i, k=k: [g.fld(FILE, "file", k, i)]) for k, t in enumerate(NAMES)}
    chosen = {t: g.flag("inc", k) for k, t in enumerate(NAMES)}
    if what == "chosen":
        g.assume(g.any_(*chosen.values()))
    asked = {t: {"default": True, "all": True, "chosen": chosen[t], "to_parse": t in ("md", "err")}[what] for t in NAMES}
    ns = namespace(g, g.pylist(seed), lambda t: g.pylist(*given[t]),
                   lambda t: chosen[t] if what == "chosen" else False, what == "all")
    want = []
    for t in NAMES:
        files = [*given[t], *g.when(g.all_(asked[t], exists[t]), g.cat(seed, ".", t))]
        if t == "err":
            files += g.when(asked[t], *err)
        want.append(g.kv(t, g.L(*files)))
    return Case(expand, [ns, g.pylist(*(("md", "err") if what == "to_parse" else ()))], expect=g.D(*want))


@contract("C21", variants=[dict(known=k, what=w) for k in (True, False) for w in ("default", "all", "chosen")], samples=10,
          merging=True)
def seed_is_a_file(g, known, what):
    """A seed naming a file of a known type: that file under its type; of another type: the files starting with its name."""
    d = g.tmpdir()
    ext = "cell" if known else "txt"
    stem = g.cat(g.fld(STEM, "stem"), ".", ext)
    seed = g.cat(d, "/", stem)
    g.is_file(seed, True)
    exists = {t: g.flag("exists", n) for n, t in enumerate(NAMES)}
    for t in NAMES:
        g.is_file(g.cat(seed, ".", t), exists[t])
    g.globs(d, g.cat(stem, ".*.err"), [])
    chosen = {t: g.flag("inc", k) for k, t in enumerate(NAMES)}
    if what == "chosen":
        g.assume(g.any_(*chosen.values()))
    ns = namespace(g, g.pylist(seed), lambda t: g.pylist(),
                   lambda t: chosen[t] if what == "chosen" else False, what == "all")
    want = []
    for t in NAMES:
        if known:
            want.append(g.kv(t, g.L(seed) if t == ext else g.L()))
        else:
            asked = chosen[t] if what == "chosen" else True
            want.append(g.kv(t, g.L(*g.when(g.all_(asked, exists[t]), g.cat(seed, ".", t)))))
    return Case(expand, [ns, g.pylist()], expect=g.D(*want))


@contract("C21", variants=[dict(ext=t) for t in NAMES], samples=4, merging=True)
def seed_is_a_file_of_each_type(g, ext):
    """Whatever else was asked for, next to files given explicitly."""
    seed = g.cat(g.tmpdir(), "/", g.fld(STEM, "stem"), ".", ext)
    g.is_file(seed, True)
    n = {t: g.count("given", k) for k, t in enumerate(NAMES)}
    given = {t: g.rep(n[t], lambda i, k=k: [g.fld(FILE, "file", k, i)]) for k, t in enumerate(NAMES)}
    chosen = {t: g.flag("inc", k) for k, t in enumerate(NAMES)}
    ns = namespace(g, g.pylist(seed), lambda t: g.pylist(*given[t]), lambda t: chosen[t], False)
    return Case(expand, [ns, g.pylist()],
                expect=g.D(*(g.kv(t, g.L(*given[t], *([seed] if t == ext else []))) for t in NAMES)))


@contract("C21", variants=[dict(what=w, n=n) for w in ("default", "chosen") for n in (0, 2, 3)], samples=10, merging=True)
def several_seeds(g, what, n):
    """Each seed is expanded on its own, in the order given."""
    d = g.tmpdir()
    seeds = [g.cat(d, "/", g.fld(STEM, f"stem{k}"), f"-{k}") for k in range(n)]
    ranks = [g.cat(s, ".", g.fld(FILE, f"rank{k}"), ".err") for k, s in enumerate(seeds)]
    chosen = {t: g.flag("inc", k) for k, t in enumerate(NAMES)}
    if what == "chosen":
        g.assume(g.any_(*chosen.values()))
    exists = {}
    for k, s in enumerate(seeds):
        g.is_file(s, False)
        for j, t in enumerate(NAMES):
            exists[k, t] = g.flag("exists", k, j)
            g.is_file(g.cat(s, ".", t), exists[k, t])
        g.globs(d, g.cat(g.fld(STEM, f"stem{k}"), f"-{k}.*.err"), [ranks[k]] if k else [])
    ns = namespace(g, g.pylist(*seeds), lambda t: g.pylist(), lambda t: chosen[t] if what == "chosen" else False, False)
    want = []
    for t in NAMES:
        asked = chosen[t] if what == "chosen" else True
        files = []
        for k, s in enumerate(seeds):
            files += g.when(g.all_(asked, exists[k, t]), g.cat(s, ".", t))
            if t == "err" and k:
                files += g.when(asked, ranks[k])
        want.append(g.kv(t, g.L(*files)))
    return Case(expand, [ns, g.pylist()], expect=g.D(*want))


# -------------------------------------------------------------------------------------------- what is parsed and collected
def parsed(path, parser, out_format, loglevel, testing):
    return ["parsed", str(path), parser.__name__, out_format, loglevel, testing]


def collect(output, kw, files, blank=()):
    """What reaches the dumper: format, data and where it goes."""
    got = []

    def single(path, parser, out_format, *, loglevel, testing):
        return [] if parser.__name__ in blank else parsed(path, parser, out_format, loglevel, testing)

    def dumpers(fmt):
        def dump(data, fh):
            got.append((fmt, data, fh))
        return dump
    with_stubs([(main.parse_single, single), (main.get_dumpers, dumpers)], main.parse_all, [output], {**kw, **files})
    (fmt, data, fh), = got
    if output is None:
        return fmt, data, fh is sys.stdout
    if isinstance(output, io.TextIOBase):
        return fmt, data, fh is output and not fh.closed
    return fmt, data, str(fh.name) == str(output) and fh.closed and fh.mode in ("a", "a+")


PAIRS = [("castep", "cell"), ("md", "geom"), ("err", "castep"), ("epme", "epme_bin"), ("cst_esp", "pot_fmt")]


def destination(g, to):
    if to == "screen":
        return None
    if to == "handle":
        return g.handle(g.path(g.cat(g.tmpdir(), "/", g.fld(STEM, "out")), []))
    name = g.path(g.cat(g.tmpdir(), "/", g.fld(STEM, "out")), [])
    return name if to == "str" else g.pathobj(name)


def parsed_as(g, f, name, opts):
    return g.L("parsed", name, f.__name__, *opts)


@contract("C21", variants=[dict(pair=p, to=t) for p, t in zip(PAIRS, ("screen", "str", "path", "handle", "screen"))] +
          [dict(pair=PAIRS[0], to=t) for t in ("str", "path", "handle")], samples=8)
def many_files(g, pair, to):
    """Two or more files: each parsed once by its type's parser, each result under its own name, in order."""
    t, u = pair
    n, m = g.count("n"), g.count("m")
    if g.symbolic:
        g.assume(n.t > 0)
        g.assume(m.t > 0)
    else:
        n, m = max(n, 1), max(m, 1)
    a = lambda i: g.cat(g.fld(FILE, "a", i), ".", t)
    b = lambda i: g.cat(g.fld(FILE, "b", i), ".", u)
    g.distinct(n, lambda i: g.fld(FILE, "a", i))
    g.distinct(m, lambda i: g.fld(FILE, "b", i))
    opts = (g.any("format", sample=lambda r: r.choice(["json", "yaml"])), g.any("level", sample=lambda r: r.choice([10, 20])),
            g.any("testing", sample=lambda r: r.random() < .5))
    kw = g.pydict(g.kv("out_format", opts[0]), g.kv("loglevel", opts[1]), g.kv("testing", opts[2]))
    files = g.pydict(g.kv(t, g.pylist(g.rep(n, lambda i: [a(i)]))), g.kv("bands", g.pylist()),
                     g.kv(u, g.pylist(g.rep(m, lambda i: [b(i)]))))
    want = g.D(*g.rep(n, lambda i: [g.kv(a(i), parsed_as(g, TYPES[t][0], a(i), opts))]),
               *g.rep(m, lambda i: [g.kv(b(i), parsed_as(g, TYPES[u][0], b(i), opts))]))
    return Case(collect, [destination(g, to), kw, files], expect=g.T(opts[0], want, True))


@contract("C21", variants=[dict(typ=t, to="screen") for t in TYPES] + [dict(typ="castep", to=t) for t in
                                                                      ("str", "path", "handle")], samples=3)
def one_file(g, typ, to):
    """Exactly one file: its bare result."""
    a = g.fld(FILE, "a")
    opts = ("print", 30, False)
    files = g.pydict(*(g.kv(t, g.pylist(*([a] if t == typ else []))) for t in TYPES))
    kw = g.pydict(g.kv("out_format", "print"), g.kv("loglevel", 30), g.kv("testing", False))
    return Case(collect, [destination(g, to), kw, files], expect=g.T("print", parsed_as(g, TYPES[typ][0], a, opts), True))


@contract("C21", variants=[dict(blank=b) for b in ("first", "second", "both")], samples=8)
def empty_results(g, blank):
    """A file whose result is empty still has its entry."""
    t, u = "castep", "cell"
    n, m = g.count("n", lo=1), g.count("m", lo=1)
    a = lambda i: g.cat(g.fld(FILE, "a", i), ".", t)
    b = lambda i: g.cat(g.fld(FILE, "b", i), ".", u)
    g.distinct(n, lambda i: g.fld(FILE, "a", i))
    g.distinct(m, lambda i: g.fld(FILE, "b", i))
    opts = ("json", 30, False)
    kw = g.pydict(g.kv("out_format", opts[0]), g.kv("loglevel", opts[1]), g.kv("testing", opts[2]))
    files = g.pydict(g.kv(t, g.pylist(g.rep(n, lambda i: [a(i)]))), g.kv(u, g.pylist(g.rep(m, lambda i: [b(i)]))))
    none = {"first": (t,), "second": (u,), "both": (t, u)}[blank]

    def result(x, f):
        return g.L() if x in none else parsed_as(g, TYPES[x][0], f, opts)
    want = g.D(*g.rep(n, lambda i: [g.kv(a(i), result(t, a(i)))]), *g.rep(m, lambda i: [g.kv(b(i), result(u, b(i)))]))
    return Case(collect, [None, kw, files, tuple(TYPES[x][0].__name__ for x in none)], expect=g.T("json", want, True))


@contract("C21", samples=3)
def no_file(g):
    return Case(collect, [None, g.pydict(), g.pydict()], expect=g.T("json", g.D(), True))


def hand_over(options):
    """run() on options: what parse_all is asked for."""
    got = []

    def everything(**kw):
        got.append(kw)
    with_stubs([(main.parse_all, everything)], main.run, [argparse.Namespace(**options)])
    return got


@contract("C21", variants=[dict(level=v) for v in ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL")], samples=4)
def options_reach_the_parser(g, level):
    """Every file list and output option reaches the parsing as it was given."""
    import logging
    n = {t: g.count("given", k) for k, t in enumerate(NAMES)}
    given = {t: g.rep(n[t], lambda i, k=k: [g.fld(FILE, "file", k, i)]) for k, t in enumerate(NAMES)}
    out, test = g.any("output", sample=lambda r: r.choice([None, "x.json"])), g.any("testing", sample=lambda r: r.random() < .5)
    form = g.any("format", sample=lambda r: r.choice(["json", "print"]))
    ns = g.pydict(g.kv("seedname", g.pylist()), g.kv("log", level), g.kv("output", out), g.kv("out_format", form),
                  g.kv("testing", test), g.kv("inc_all", False), *(g.kv(f"inc_{t}", False) for t in NAMES),
                  *(g.kv(t, g.pylist(*given[t])) for t in NAMES))
    return Case(hand_over, [ns], expect=g.L(g.D(
        g.kv("output", out), g.kv("loglevel", getattr(logging, level)), g.kv("testing", test), g.kv("out_format", form),
        *(g.kv(t, g.L(*given[t])) for t in NAMES))))


# -------------------------------------------------------------------------------------------- the option parser (bounded)
def command(argv):
    old = sys.argv
    sys.argv = ["castep_outputs", *argv]
    try:
        args = with_stubs([], cli.parse_args)
    finally:
        sys.argv = old
    return cli.extract_parsables(args), args.output, args.out_format, args.testing, args.log


MAGIC = Lex("MAGIC", r"[A-Za-z0-9_\-\[\]?]+", lambda r: r.choice(["Si", "si2-md", "a[1]", "b?", "[ab]c", "x"]))


@contract("C21", mode="bounded", samples=400)
def command_line(g):
    """argparse itself is not interpreted: drawn command lines through the real option parser (bounded)."""
    d = g.tmpdir()
    types = [t for k, t in enumerate(NAMES) if g.any("kind", k, sample=lambda r: r.random() < .15)]
    argv, given, inc = [], {t: [] for t in NAMES}, set()
    for t in types:
        how = g.any("how", t, sample=lambda r: r.choice(["files", "inc", "both"]))
        if how != "inc":
            n = g.any("number", t, sample=lambda r: r.randrange(1, 4))
            given[t] = [g.cat(d, "/", g.fld(FILE, "file", t, i), f".{i}") for i in range(n)]
            argv += [f"--{t}", *given[t]]
        if how != "files":
            inc.add(t)
            argv += [f"--inc-{t}"]
    everything = g.any("all", sample=lambda r: r.random() < .2)
    if everything:
        argv += [g.any("spelling", sample=lambda r: r.choice(["-A", "--inc-all"]))]
    out = g.any("out", sample=lambda r: r.choice([None, "out.json"]))
    if out:
        argv += ["-o", out]
    test = g.any("test", sample=lambda r: r.random() < .3)
    if test:
        argv += ["--testing"]
    form = g.any("form", sample=lambda r: r.choice(["json", "print", "pprint"]))
    argv += ["-f", form]
    level = g.any("level", sample=lambda r: r.choice(["DEBUG", "ERROR"]))
    argv += ["-L", level]
    want = {t: list(given[t]) for t in NAMES}
    for k in range(g.any("seeds", sample=lambda r: r.randrange(0, 3))):
        seed = g.cat(d, "/", g.fld(MAGIC, "stem", k), f"-{k}")
        argv += [seed]
        for t in NAMES:
            ex = g.any("exists", k, t, sample=lambda r: r.random() < .3)
            g.is_file(g.cat(seed, ".", t), ex)
            if ex and (t in inc or everything or not inc):
                want[t] += [g.cat(seed, ".", t)]
        ranks = [g.cat(seed, f".{i:04d}.err") for i in range(g.any("ranks", k, sample=lambda r: r.randrange(0, 3)))]
        g.globs(d, None, ranks)
        if "err" in inc or everything or not inc:
            want["err"] += ranks
    return Case(command, [g.pylist(*argv)], expect=g.T(g.D(*(g.kv(t, g.L(*want[t])) for t in NAMES)), out, form, test, level))
