"""C20: a file's path, open handle and extension all select the same parse."""
import functools
import pathlib

from castep_outputs import parsers as P
from castep_outputs import bin_parsers as B
from castep_outputs.cli import castep_outputs_main as main
from castep_outputs.parsers.castep_file_parser import Filters
from castep_outputs.utilities.utility import file_or_path
from pyvc.contract import Case, contract
from pyvc.doc import Lex
from pyvc.fsmodel import with_stubs

from .c14_tables import fmt

STEM = Lex("STEM", r"[A-Za-z0-9_\-]+", lambda r: r.choice(["Si", "si2-md", "run_01", "castep", "4He"]))
TXT = Lex("FREETXT", r"[!-~][ -~]*", lambda r: r.choice(["some text", "x", "1.0 2.0 3.0", "a: b"]))


class Failed(Exception):
    pass


def note(fh, seen, fail, args, kw):
    """A parser of which nothing is known: it reads, then returns or fails."""
    seen.append(fh)
    lines = [] if "b" in fh.mode else list(fh)
    if fail:
        raise Failed("parser failed")
    return lines, args, kw


@file_or_path(mode="r")
def text_probe(fh, seen, fail, *args, **kw):
    return note(fh, seen, fail, args, kw)


@file_or_path(mode="rb")
def bin_probe(fh, seen, fail, *args, **kw):
    return note(fh, seen, fail, args, kw)


def watch(parser, file, seen, args, kw):
    """What the parser gives, and the state of every file it was handed, afterwards."""
    try:
        r = parser(file, *args, **kw)
    except Failed:
        r = "failed"
    return r, [(f.closed, f.mode) for f in seen]


def watch_probe(parser, file, fail, args, kw):
    seen = []
    return watch(parser, file, seen, [seen, fail, *args], kw)


def seed_file(g, how, ext, *lines):
    name = g.path(g.cat(g.tmpdir(), "/", g.fld(STEM, "stem"), ext), *lines)
    if how == "str":
        return name
    if how == "path":
        return g.pathobj(name)
    return g.handle(name)


def text_lines(g):
    n = g.count("lines")
    text = lambda i: g.cat(g.fld(TXT, "text", i), "\n")
    return g.rep(n, lambda i: [text(i)])


OPT = dict(sample=lambda r: r.choice([0, "x", 2.5, None, "rb"]))


@contract("C20", variants=[dict(how=h, mode=m, fail=f) for h in ("str", "path") for m in ("r", "rb")
                           for f in (False, True)])
def any_parser_given_a_path(g, how, mode, fail):
    """file_or_path around any function: opened in the stated mode, options passed on, closed on every exit."""
    lines = text_lines(g)
    a, b = g.any("positional", **OPT), g.any("keyword", **OPT)
    file = seed_file(g, how, ".dat", *lines)
    got = "failed" if fail else g.T(g.L(*(lines if mode == "r" else [])), g.T(a), g.D(g.kv("opt", b)))
    return Case(watch_probe, [text_probe if mode == "r" else bin_probe, file, fail, g.pylist(a), g.pydict(g.kv("opt", b))],
                expect=g.T(got, g.L(g.T(True, mode))))


@contract("C20", variants=[dict(fail=f) for f in (False, True)])
def any_parser_given_a_handle(g, fail):
    """The handle itself reaches the function and stays the caller's."""
    lines = text_lines(g)
    a, b = g.any("positional", **OPT), g.any("keyword", **OPT)
    f = seed_file(g, "handle", ".dat", *lines)
    return Case(handle_probe, [f, fail, g.pylist(a), g.pydict(g.kv("opt", b))],
                expect=g.T("failed" if fail else g.T(g.L(*lines), g.T(a), g.D(g.kv("opt", b))), True, False, 1))


def handle_probe(f, fail, args, kw):
    seen = []
    try:
        r = text_probe(f, seen, fail, *args, **kw)
    except Failed:
        r = "failed"
    return r, seen[0] is f, f.closed, len(seen)


# -------------------------------------------------------------------------------------------- the library's own parsers
#: extension -> (parser of that file type, mode)
TYPES = {
    "castep": (P.parse_castep_file, "r"), "cell": (P.parse_cell_file, "r"), "param": (P.parse_param_file, "r"),
    "geom": (P.parse_md_geom_file, "r"), "md": (P.parse_md_geom_file, "r"), "bands": (P.parse_bands_file, "r"),
    "hug": (P.parse_hug_file, "r"), "phonon_dos": (P.parse_phonon_dos_file, "r"),
    "efield": (P.parse_efield_file, "r"), "xrd_sf": (P.parse_xrd_sf_file, "r"),
    "elf_fmt": (P.parse_elf_fmt_file, "r"), "chdiff_fmt": (P.parse_chdiff_fmt_file, "r"),
    "pot_fmt": (P.parse_pot_fmt_file, "r"), "den_fmt": (P.parse_den_fmt_file, "r"),
    "elastic": (P.parse_elastic_file, "r"), "ts": (P.parse_ts_file, "r"), "magres": (P.parse_magres_file, "r"),
    "tddft": (P.parse_tddft_file, "r"), "err": (P.parse_err_file, "r"), "phonon": (P.parse_phonon_file, "r"),
    "epme": (P.parse_epme_file, "r"),
    "cst_esp": (B.parse_cst_esp_file, "rb"), "epme_bin": (B.parse_epme_bin_file, "rb"),
}
DISPATCHED = [k for k, (f, _) in TYPES.items() if hasattr(f, "registry")]
OTHERS = [k for k in TYPES if k not in DISPATCHED]


def run_type(parser, file, fail, kw):
    seen = []

    def body(fh, *args, **kw):
        return note(fh, seen, fail, args, kw)
    return with_stubs([(parser, body)], watch, [parser, file, seen, [], kw])


@contract("C20", variants=[dict(ext=e, how=h, fail=f) for e in DISPATCHED for h, f in
                           (("str", False), ("path", False), ("str", True))], samples=6)
def each_type_given_a_path(g, ext, how, fail):
    """Each file type's parser, whatever its body does: a path is opened in the type's mode, handed on, closed."""
    parser, mode = TYPES[ext]
    lines = text_lines(g)
    b = g.any("keyword", **OPT)
    file = seed_file(g, how, f".{ext}", *lines)
    got = "failed" if fail else g.T(g.L(*(lines if mode == "r" else [])), g.T(), g.D(g.kv("opt", b)))
    return Case(run_type, [parser, file, fail, g.pydict(g.kv("opt", b))], expect=g.T(got, g.L(g.T(True, mode))))


class AsPath:
    """The same contract with the document in a file given by name."""

    def __init__(self, g, how, ext):
        self.g, self.how, self.ext = g, how, ext

    def __getattr__(self, name):
        return getattr(self.g, name)

    def file(self, *lines, name=None):
        return seed_file(self.g, self.how, self.ext, *lines)


@contract("C20", variants=[dict(ext=e, how=h) for e in OTHERS for h in ("str", "path")], samples=6)
def each_field_type_given_a_path(g, ext, how):
    """Formatted grids (not dispatched on their own): path and handle give the same whole parse."""
    return fmt(AsPath(g, how, f".{ext}"), {"elf_fmt": "elf1"}.get(ext, ext[:-4]))


# -------------------------------------------------------------------------------------------- parser by extension
def stub_of(name):
    def body(x, **kw):
        given = str(x) if isinstance(x, pathlib.Path) else str(x.name)
        return {"parser": name, "file": given, "filters": kw.get("filters", "default"), "options": len(kw)}
    return body


def single(stubs, file, parser, kw):
    return with_stubs(stubs, main.parse_single, [file, parser], kw)


def stubs():
    """Every parser replaced by one that says which it is and what it was given."""
    out = {}
    for f, _ in TYPES.values():
        out[f] = stub_of(f.__name__)
    return list(out.items())


def result(g, parser, name, testing=False):
    return g.D(g.kv("parser", parser.__name__), g.kv("file", name),
               g.kv("filters", Filters.TESTING if testing else "default"), g.kv("options", 1 if testing else 0))


@contract("C20", variants=[dict(ext=e, how=h, testing=False) for e in TYPES for h in ("str", "path")] +
          [dict(ext=e, how="path", testing=True) for e in TYPES], samples=3)
def single_file_by_extension(g, ext, how, testing):
    """The extension alone selects the parser; testing mode restricts the sections of the main output only."""
    f, _ = TYPES[ext]
    name = g.path(g.cat(g.tmpdir(), "/", g.fld(STEM, "stem"), f".{ext}"), [])
    kw = [g.kv("testing", True)] if testing else []
    return Case(single, [stubs(), name if how == "str" else g.pathobj(name), None, g.pydict(*kw)],
                expect=result(g, f, name, testing and ext == "castep"))


@contract("C20", variants=[dict(ext=e) for e in TYPES], samples=3)
def single_file_by_named_type(g, ext):
    """A parser named by its type is used whatever the file is called."""
    f, _ = TYPES[ext]
    name = g.path(g.cat(g.tmpdir(), "/", g.fld(STEM, "stem"), ".out"), [])
    return Case(single, [stubs(), name, ext, g.pydict()], expect=result(g, f, name))


@contract("C20", variants=[dict(ext=e) for e in TYPES], samples=3)
def single_file_by_parser(g, ext):
    """A parser given as a function is used whatever the file is called."""
    f, _ = TYPES[ext]
    name = g.path(g.cat(g.tmpdir(), "/", g.fld(STEM, "stem"), ".castep"), [])
    return Case(single, [stubs(), name, f, g.pydict()], expect=result(g, f, name))


UNKNOWN = ["txt", "Castep", "castep2", "castep_bin", "ca", "cells", "out", "dos", "bin", "pdf", "check", "param~", "geom_", "elf", "fmt"]


@contract("C20", variants=[dict(ext=e) for e in UNKNOWN] + [dict(ext="")], samples=3)
def single_file_of_unknown_type(g, ext):
    name = g.path(g.cat(g.tmpdir(), "/", g.fld(STEM, "stem"), f".{ext}" if ext else ""), [])
    return Case(single, [stubs(), name, None, g.pydict()], raises=(ValueError,))


@contract("C20", samples=3)
def handle_without_parser(g):
    return Case(single, [stubs(), g.file(text_lines(g)), None, g.pydict()], raises=(ValueError,))
