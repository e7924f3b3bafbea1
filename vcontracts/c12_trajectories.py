"""C12: molecular-dynamics and geometry trajectories."""
from castep_outputs.parsers.md_geom_file_parser import parse_md_geom_file
from pyvc.contract import Case, contract

from .common import *

SCALARS = {"E": 3, "T": 1, "P": 1}
MATRICES = ("h", "hv", "S")
ALIAS = {"E": "energy", "T": "temperature", "P": "pressure", "h": "lattice_vectors", "hv": "lattice_velocity",
         "S": "stress", "R": "position", "V": "velocity", "F": "force"}
MD = ("E", "T", "P", "h", "hv", "S", "R", "V", "F")
GEOM = ("E", "h", "S", "R", "F")
SHORT = ("E", "h", "R")


TAGGED = Lex("TAGGED", r"[A-Z][a-z]?:[A-Za-z0-9]+", lambda r: r.choice(["H:D", "Fe:up", "C:1", "Si:a2"]))


def atom_key(g, *idx, spec=SPEC):
    return g.T(g.fld(spec, "spec", *idx), g.int(g.fld(INT, "ind", *idx)))


def frame_lines(g, tags, na, *i, spec=SPEC):
    """The printed lines of one frame: time, tagged values, tagged per-atom vectors."""
    out = [g.line(g.sp0, g.fld(FLTX, "time", *i))]
    for t in tags:
        if t in SCALARS:
            out.append(g.line(*flush(g, fields(g, FLTX, t, *i, n=SCALARS[t])), g.sp, "<-- " + t))
        elif t in MATRICES:
            for r in range(3):
                out.append(g.line(*flush(g, fields(g, FLTX, t, *i, r)), g.sp, "<-- " + t))
        else:
            out.append(g.rep(na, lambda a, t=t: [g.line(
                g.sp0, g.fld(spec, "spec", *i, a), g.sp, g.fld(INT, "ind", *i, a),
                *spaced(g, fields(g, FLTX, t, *i, a)), g.sp, "<-- " + t)]))
    return out


def frame_value(g, tags, na, *i, spec=SPEC):
    kv = [g.kv("time", g.flt(g.fld(FLTX, "time", *i)))]
    per_atom = []
    for t in tags:
        if t in SCALARS:
            v = g.L(g.L(*[g.flt(f) for f in fields(g, FLTX, t, *i, n=SCALARS[t])]))
        elif t in MATRICES:
            v = g.L(*[g.L(*[g.flt(f) for f in fields(g, FLTX, t, *i, r)]) for r in range(3)])
        else:
            per_atom.append(t)
            continue
        kv += [g.kv(t, v), g.kv(ALIAS[t], v)]

    def ion(a):
        vs = []
        for t in per_atom:
            v = g.T(*[g.flt(f) for f in fields(g, FLTX, t, *i, a)])
            vs += [g.kv(t, v), g.kv(ALIAS[t], v)]
        return g.kv(atom_key(g, *i, a, spec=spec), g.D(*vs))
    kv.append(g.kv("ions", g.D(g.rep(na, ion))))
    return g.D(*kv)


def header(g, comments, blank=""):
    return [g.line(" BEGIN header"), *[g.line(" ", g.fld(WORD, "note", c)) for c in range(comments)],
            g.line(" END header"), *([] if blank is None else [g.line(blank)])]


def check(g, tags, head, sep="", last=True, spec=SPEC):
    nf = g.count("nf", lo=1)

    def na(i):
        return g.count("na", i)

    def frame(i):
        return [*frame_lines(g, tags, na(i), i, spec=spec), g.line(sep)]
    g.each(nf, lambda i: g.distinct(na(i), lambda a: atom_key(g, i, a, spec=spec)))
    if last:
        body = [g.rep(nf, frame)]
    else:
        n = g.add(nf, -1)
        body = [g.rep(n, frame), *frame_lines(g, tags, na(n), n, spec=spec)]
    return Case(parse_md_geom_file, [g.file(*head, *body)],
                expect=g.L(g.rep(nf, lambda i: [frame_value(g, tags, na(i), i, spec=spec)])))


@contract("C12", variants=[dict(tags=MD), dict(tags=GEOM), dict(tags=SHORT)])
def trajectory(g, tags):
    return check(g, tags, header(g, 1))


@contract("C12", variants=[dict(sep="  "), dict(sep="", last=False), dict(spec=TAGGED)])
def layout(g, sep="", last=True, spec=SPEC):
    """Frames separated by blank characters, no blank line at the end, tagged species."""
    return check(g, SHORT, header(g, 1, sep), sep, last, spec)


@contract("C12", variants=[dict(kind="none"), dict(kind="long"), dict(kind="tight"), dict(kind="late")])
def heading(g, kind):
    head = {"none": [], "long": header(g, 3), "tight": header(g, 1, None),
            "late": [g.line(""), g.line("  "), *header(g, 0)]}[kind]
    return check(g, SHORT, head)


@contract("C12", variants=[dict(first=("R",), second=("R", "F")), dict(first=("R", "V"), second=("F",))])
def unlike_atoms(g, first, second):
    """Atoms of one species have other rows than those of another."""
    nf = g.count("nf", lo=1)
    groups = [("H", first), ("O", second)]

    def n(k, i):
        return g.count("na", k, i, lo=1)

    def key(k, i, a):
        return g.T(groups[k][0], g.int(g.fld(INT, "ind", k, i, a)))

    def row(t, k, i, a):
        return [g.line(g.sp0, groups[k][0], g.sp, g.fld(INT, "ind", k, i, a), *spaced(g, fields(g, FLTX, t, k, i, a)),
                       g.sp, "<-- " + t)]
    for k in (0, 1):
        g.each(nf, lambda i, k=k: g.distinct(n(k, i), lambda a: key(k, i, a)))

    def frame(i):
        out = [g.line(g.sp0, g.fld(FLTX, "time", i))]
        for t in ("R", "V", "F"):
            out += [g.rep(n(k, i), lambda a, k=k, t=t: row(t, k, i, a)) for k, (_, tags) in enumerate(groups) if t in tags]
        return [*out, g.line("")]

    def ions(i):
        out = []
        for k, (_, tags) in enumerate(groups):
            def ion(a, k=k, tags=tags):
                kv = []
                for t in tags:
                    v = g.T(*[g.flt(f) for f in fields(g, FLTX, t, k, i, a)])
                    kv += [g.kv(t, v), g.kv(ALIAS[t], v)]
                return [g.kv(key(k, i, a), g.D(*kv))]
            out.append(g.rep(n(k, i), ion))
        return g.D(*out)
    return Case(parse_md_geom_file, [g.file(*header(g, 1), g.rep(nf, frame))],
                expect=g.L(g.rep(nf, lambda i: [g.D(g.kv("time", g.flt(g.fld(FLTX, "time", i))), g.kv("ions", ions(i)))])))


@contract("C12", variants=[dict(kind="nothing"), dict(kind="header"), dict(kind="blank")])
def empty(g, kind):
    """A file without frames is an error, not an empty result."""
    lines = {"nothing": [], "header": header(g, 1), "blank": [*header(g, 1), g.rep(g.count("n"), lambda i: [g.line(g.sp0)])]}
    return Case(parse_md_geom_file, [g.file(*lines[kind])], raises=ValueError)
