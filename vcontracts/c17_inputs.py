"""C17: input (cell and parameter) files."""
from castep_outputs.parsers.cell_param_file_parser import parse_cell_param_file
from pyvc.contract import Case, contract

from .c05_convert import PINT, RDEN
from .c06_infer import EXPO, FIXED
from .common import *

KEYW = Lex("KEYW", r"[A-Za-z_][A-Za-z0-9_]*", lambda r: r.choice(["task", "CUT_OFF_ENERGY", "Elec_Temp", "sedc_s6_g06", "x", "nbands"]))
TXT = Lex("TXT", r"[A-EG-SU-Za-eg-su-z_/(*<>$&;@][^\s#!]*",
          lambda r: r.choice(["GeometryOptimization", "PBE", "none", "Gaussian", "(x)", "a:b=c", "/dev/null"]))
MORE = Lex("MORE", r"[^\s#!]+", lambda r: r.choice(["12", "-x", "y.z", "T", "foo", "=", "+1.5"]))
UNIT = Lex("UNIT", r"(1/)?[A-Za-z][A-Za-z0-9/*^()-]*", lambda r: r.choice(["eV", "ang", "1/ang", "eV/ang**3", "K", "GPa"]))
NOTE = Lex("NOTE", r"([^\n]*[^\s])?", lambda r: r.choice(["", " note", "# ! more", " task : none", " %block x", " 1 2 3", "!!"]))
LOGICALS = {"T": True, "true": True, "TRUE": True, "True": True, "F": False, "false": False, "FALSE": False, "fAlSe": False}
SEPS = {"blank": lambda g: [g.sp], "colon": lambda g: [g.sp0, ":", g.sp0], "equals": lambda g: [g.sp0, "=", g.sp0], "tab": lambda g: ["\t"]}
VALUES = ("int", "fixed", "expo", "ints", "fixeds", "mixed", "word", "words")


def value(g, kind, *i):
    """(text parts, value)"""
    if kind == "int":
        t = g.fld(PINT, "v", *i)
        return [t], g.int(t)
    if kind in ("fixed", "expo"):
        t = g.fld(FIXED if kind == "fixed" else EXPO, "v", *i)
        return [t], g.flt(t)
    if kind in ("ints", "fixeds", "mixed"):
        ts = [g.fld(PINT if kind == "ints" or (kind == "mixed" and r) else FIXED, "v", *i, r) for r in range(3)]
        return [ts[0], g.sp, ts[1], g.sp, ts[2]], g.T(*[(g.int if kind == "ints" else g.flt)(t) for t in ts])
    if kind in LOGICALS:
        return [kind], LOGICALS[kind]
    a = g.fld(TXT, "v", *i)
    if kind == "word":
        return [a], a
    t = [a, g.fld(WS1, "vs", *i), g.fld(MORE, "v2", *i)]
    return t, g.cat(*t)


def tail(g, name, *i):
    return [g.sp0, g.fld(MARK, name + "-m", *i), g.fld(NOTE, name + "-c", *i)]


MARK = Lex("MARK", r"[#!]", lambda r: r.choice("#!"))


@contract("C17", variants=[dict(kind=k, sep="colon", unit=u) for k in (*VALUES, *LOGICALS) for u in (0, 1) if not u or k in VALUES[:6]] +
          [dict(kind=k, sep=s, unit=k == "fixed") for k in ("int", "fixed", "ints", "word") for s in ("blank", "equals", "tab")])
def keywords(g, kind, sep, unit):
    """Any number of keyword lines, blank lines and comments."""
    n, nc, nb = g.count("n"), g.count("nc"), g.count("nb")
    g.distinct(n, lambda i: g.lower(g.fld(KEYW, "k", i)))
    ls, kv = [], []

    def row(i):
        text, val = value(g, kind, i)
        u = [g.sp, g.fld(UNIT, "u", i)] if unit else []
        return ([g.line(g.sp0, g.fld(KEYW, "k", i), *SEPS[sep](g), *text, *u, *tail(g, "t", i))],
                g.kv(g.lower(g.fld(KEYW, "k", i)), g.T(val, g.fld(UNIT, "u", i)) if unit else val))
    f = g.file(g.rep(nc, lambda i: [g.line(*tail(g, "c", i))]), g.rep(n, lambda i: row(i)[0]), g.rep(nb, lambda i: [g.line(g.sp0)]))
    return Case(parse_cell_param_file, [f], expect=g.L(g.D(g.rep(n, lambda i: row(i)[1]))))


# ---------------------------------------------------------------------------------------------------------- blocks
def block(g, title, *rows, style="upper"):
    b, e = {"upper": ("%BLOCK ", "%ENDBLOCK "), "lower": ("%block ", "%endblock "), "mixed": ("%BlocK ", "%endBlock ")}[style]
    t = {"upper": title.upper(), "lower": title, "mixed": title.title()}[style]
    return [g.line(g.sp0, b, t), *rows, g.line(g.sp0, e, t)]


def note(g, on, *i):
    """What follows a row: nothing, or a comment, a comment line and a blank line."""
    return ([*tail(g, "rt", *i)], [g.line(*tail(g, "rc", *i)), g.line(g.sp0)]) if on else ([], [])


def table(g, n, row, noted):
    """n rows given by the parts of their line"""
    def one(i):
        t, more = note(g, noted, i)
        return [g.line(g.sp0, *row(i), *t), *more]
    return g.rep(n, one)


def after(g):
    """A keyword line following the block."""
    v = g.fld(PINT, "after")
    return g.line("nbands : ", v), g.kv("nbands", g.int(v))


def document(g, title, *rows, value, style="upper", before=()):
    al, av = after(g)
    return Case(parse_cell_param_file, [g.file(*before, *block(g, title, *rows, style=style), al)],
                expect=g.L(g.D(g.kv(title, value), av)))


STYLES = ("upper", "lower", "mixed")
REAL = Lex("REAL", r"[+-]?(\d+\.\d*|\.\d+|\d+)([eE][+-]?\d{1,2})?", lambda r: r.choice(["1.0", "-0.25", "3", ".5", "1e-3", "2.5E+01"]))
BUNIT = Lex("BUNIT", r"[a-z][A-Za-z/^*]*", lambda r: r.choice(["ang", "bohr", "eV/ang", "amu", "nm"]))
CELLSPEC = Lex("CELLSPEC", r"[A-Z][a-z]{0,2}(:[A-Za-z0-9_]+)?", lambda r: r.choice(["H", "He", "Si:a", "C:1", "Uue"]))


@contract("C17", variants=[dict(ncol=c, unit=u, noted=k, style=s) for c in (1, 2, 3, 4) for u in (0, 1) for k in (0, 1)
                           for s in STYLES if s == "upper" or c == 3])
def general_rows(g, ncol, unit, noted, style):
    """Rows of numbers (lattice, k-points, constraints...), optionally with a unit line."""
    n, u = g.count("n"), g.fld(BUNIT, "unit")
    rows = table(g, n, lambda i: spaced(g, fields(g, REAL, "x", i, n=ncol)), noted)
    t, more = note(g, noted, 0, 0)
    val = [g.kv("data", g.L(g.rep(n, lambda i: [g.T(*[g.flt(x) for x in fields(g, REAL, "x", i, n=ncol)])])))]
    ul = [g.line(g.sp0, u, *t), *more] if unit else []
    return document(g, "lattice_cart", *ul, rows, value=g.D(*val, *([g.kv("units", u)] if unit else [])), style=style)


@contract("C17", variants=[dict(kind=k, unit=u, noted=c) for k in ("int", "fixed", "expo", "word") for u in (0, 1) for c in (0, 1)])
def general_species(g, kind, unit, noted):
    """One value per species."""
    n, u = g.count("n"), g.fld(BUNIT, "unit")
    g.distinct(n, lambda i: g.fld(CELLSPEC, "s", i))
    rows = table(g, n, lambda i: [g.sp0, g.fld(CELLSPEC, "s", i), g.sp, *value(g, kind, i)[0]], noted)
    ul = [g.line(g.sp0, u)] if unit else []
    if g.symbolic:
        g.assume(n.t > 0)
    data = g.D(g.rep(n, lambda i: g.kv(g.fld(CELLSPEC, "s", i), value(g, kind, i)[1]))) if g.symbolic or n else g.L()
    return document(g, "species_mass", *ul, rows, value=g.D(g.kv("data", data), *([g.kv("units", u)] if unit else [])))


@contract("C17", variants=[*[dict(style=s, m="m") for s in STYLES], dict(style="upper", m=1)])
def ionic_constraints(g, style, m):
    """Constraints of one atom accumulate in order: m constraints on each of n atoms."""
    n, noted = g.count("n"), m == 1
    m = 1 if noted else g.count("m", lo=1)
    g.distinct(n, lambda a: g.T(g.fld(CELLSPEC, "s", a), g.int(g.fld(INT, "a", a))))

    def row(a, i):
        return [g.fld(INT, "c", a, i), g.sp, g.fld(CELLSPEC, "s", a), g.sp, g.fld(INT, "a", a), *spaced(g, fields(g, FLT, "x", a, i))]

    def val(a, i):
        return g.T(*[g.flt(x) for x in fields(g, FLT, "x", a, i)])

    def key(a):
        return g.T(g.fld(CELLSPEC, "s", a), g.int(g.fld(INT, "a", a)))
    if noted:
        rows = table(g, n, lambda a: row(a, 0), True)
        vals = g.rep(n, lambda a: g.kv(key(a), g.L(val(a, 0))))
    else:
        rows = g.rep(n, lambda a: table(g, m, lambda i: row(a, i), False))
        vals = g.rep(n, lambda a: g.kv(key(a), g.L(g.rep(m, lambda i: [val(a, i)]))))
    return document(g, "ionic_constraints", rows, value=g.D(vals), style=style)


# -------------------------------------------------------------------------------------------------------- positions
POSITIONS = {"positions_frac": False, "positions_abs": True, "positions_frac_intermediate": False, "positions_frac_product": False,
             "positions_abs_intermediate": True, "positions_abs_product": True}


def atom(g, name, spec, extra, units, *i):
    """(parts of the line, entry) of an atom"""
    xs = fields(g, REAL, name + "x", *i)
    if extra == "ratio":
        ab = [(g.fld(PINT, name + "n", *i, r), g.fld(RDEN, name + "d", *i, r)) for r in range(3)]
        parts, pos = spaced(g, [g.cat(a, "/", b) for a, b in ab]), g.T(*[g.ratio(a, b) for a, b in ab])
    else:
        parts, pos = spaced(g, xs), g.T(*[g.flt(x) for x in xs])
    kv = [g.kv("pos", pos)]
    if units is not None:
        kv.append(g.kv("units", units))
    if extra in ("spin", "magmom", "all"):
        q = g.fld(REAL, name + "q", *i)
        parts += [g.sp, {"spin": "SPIN=", "magmom": "magmom : ", "all": "Spin = "}[extra], q]
        kv.append(g.kv("spin", g.flt(q)))
    if extra in ("mix", "all"):
        k, w = g.fld(INT, name + "k", *i), g.fld(UFLT, name + "w", *i)
        parts += [g.sp, "MIXTURE:(", g.sp, k, g.sp, w, ")"]
        kv += [g.kv("mix_index", g.int(k)), g.kv("weight", g.flt(w))]
    return [spec, *parts], g.D(*kv)


def pos_units(g, title, unit):
    """(lines, unit of the atoms)"""
    if not POSITIONS[title]:
        return [], None
    u = g.fld(BUNIT, "unit")
    return ([g.line(g.sp0, u)], u) if unit else ([], "Ang")


def two_species(g):
    g.distinct(2, lambda i: g.fld(CELLSPEC, "AB", i))
    return g.fld(CELLSPEC, "AB", 0), g.fld(CELLSPEC, "AB", 1)


EXTRAS = ("", "ratio", "spin", "magmom", "mix", "all")


@contract("C17", variants=[dict(title=t, extra="", unit=u, noted=k) for t in POSITIONS for u in (0, 1) for k in (0, 1)
                           if (not u or POSITIONS[t])] +
          [dict(title=t, extra=e, unit=1, noted=0) for e in EXTRAS for t in ("positions_frac", "positions_abs")])
def positions_runs(g, title, extra, unit, noted):
    """One species, then another, then the first again."""
    n, m, k = g.count("n"), g.count("m"), g.count("k")
    a, b = two_species(g)
    ul, units = pos_units(g, title, unit)
    rows, kv = [], []
    for nm, cnt, s, off in (("p", n, a, 1), ("q", m, b, 1), ("r", k, a, g.add(n, 1))):
        rows.append(table(g, cnt, lambda i, nm=nm, s=s: atom(g, nm, s, extra, units, i)[0], noted))
        kv.append(g.rep(cnt, lambda i, nm=nm, s=s, off=off: g.kv(g.T(s, g.add(i, off)), atom(g, nm, s, extra, units, i)[1])))
    return document(g, title, *ul, *rows, value=g.D(*kv))


@contract("C17", variants=[dict(title=t) for t in ("positions_frac", "positions_abs")])
def positions_alternating(g, title):
    """Two species taking turns."""
    n = g.count("n")
    a, b = two_species(g)
    ul, units = pos_units(g, title, 1)

    def row(i):
        return [g.line(g.sp0, *atom(g, "p", a, "", units, i)[0]), g.line(g.sp0, *atom(g, "q", b, "", units, i)[0])]

    def val(i):
        return [g.kv(g.T(a, g.add(i, 1)), atom(g, "p", a, "", units, i)[1]), g.kv(g.T(b, g.add(i, 1)), atom(g, "q", b, "", units, i)[1])]
    return document(g, title, *ul, g.rep(n, row), value=g.D(g.rep(n, val)))


@contract("C17", variants=[dict(title=t, m=m) for t in ("positions_frac", "positions_abs") for m in (1, 2)])
def positions_all_species(g, title, m):
    """Any number of species with m atoms each."""
    ns = g.count("ns")
    g.distinct(ns, lambda s: g.fld(CELLSPEC, "S", s))
    ul, units = pos_units(g, title, 1)

    def sp(s):
        return g.fld(CELLSPEC, "S", s)
    return document(g, title, *ul, g.rep(ns, lambda s: [g.line(g.sp0, *atom(g, "p", sp(s), "", units, s, i)[0]) for i in range(m)]),
                    value=g.D(g.rep(ns, lambda s: [g.kv(g.T(sp(s), i + 1), atom(g, "p", sp(s), "", units, s, i)[1])
                                                   for i in range(m)])))


# ------------------------------------------------------------------------------------------------------ other blocks
UCONF = Lex("UCONF", r"[A-Za-z][A-Za-z0-9]*", lambda r: r.choice(["d", "f", "C6", "R0", "alpha", "Neff"]))


def options(g, name, kind, seps, *i):
    """(line parts, mapping) of blank-separated `key: value` pairs"""
    parts, kv = [], []
    for r, s in enumerate(seps):
        k = g.fld(UCONF, name + "k", *i, r)
        v = g.fld({"int": PINT, "real": FLT}[kind], name + "v", *i, r)
        parts += [g.sp, k, *s(g), v]
        kv.append(g.kv(k, g.int(v) if kind == "int" else g.flt(v)))
    return parts, g.D(*kv)


TIGHT, LOOSE, WIDE = (lambda g: [":"]), (lambda g: [g.sp0, ":", g.sp0]), (lambda g: [g.sp, ":", g.sp])
SPLIT = {"solo": [TIGHT], "wide": [WIDE], "tight": [TIGHT, TIGHT, TIGHT], "wider": [WIDE, WIDE], "both": [TIGHT, WIDE, TIGHT]}
FORMS = {"one": [LOOSE], "two": [TIGHT, LOOSE], "three": [LOOSE, LOOSE, TIGHT], **SPLIT}


def distinct_options(g, n, name, form):
    g.each(n, lambda i: g.distinct(len(FORMS[form]), lambda r: g.fld(UCONF, name + "k", i, r)))


@contract("C17", variants=[dict(form=f, kind=k, unit=u, site=s, noted=c) for f in ("one", "two", "three") for k in ("int", "real") for u in (0, 1)
                           for s in (0, 1) for c in (0, 1) if not c or f == "two"])
def hubbard_u(g, form, kind, unit, site, noted):
    """Values per species or per site."""
    n, u = g.count("n"), g.fld(BUNIT, "unit")
    distinct_options(g, n, "o", form)

    def key(i):
        s = g.fld(CELLSPEC, "s", i)
        return g.T(s, g.int(g.fld(INT, "a", i))) if site else s
    g.distinct(n, key)

    def row(i):
        return [g.fld(CELLSPEC, "s", i), *([g.sp, g.fld(INT, "a", i)] if site else []), *options(g, "o", kind, FORMS[form], i)[0]]
    rows = table(g, n, row, noted)
    vals = g.rep(n, lambda i: g.kv(key(i), options(g, "o", kind, FORMS[form], i)[1]))
    if g.symbolic and not unit:
        g.assume(n.t > 0)
    return document(g, "hubbard_u", *([g.line(g.sp0, u)] if unit else []), rows,
                    value=g.D(g.kv("units", u if unit else "eV"), vals))


@contract("C17", variants=[dict(form=f, kind=k, unit=u, noted=c) for f in FORMS for k in ("int", "real") for u in (0, 1) for c in (0, 1)
                           if (not c or f in ("two", "tight")) and (u or f in SPLIT)])
def sedc(g, form, kind, unit, noted):
    n, u, w = g.count("n", lo=1 - unit), g.fld(BUNIT, "unit"), g.fld(BUNIT, "unit2")
    g.distinct(n, lambda i: g.fld(CELLSPEC, "s", i))
    distinct_options(g, n, "o", form)
    rows = table(g, n, lambda i: [g.fld(CELLSPEC, "s", i), *options(g, "o", kind, FORMS[form], i)[0]], noted)
    vals = g.rep(n, lambda i: g.kv(g.fld(CELLSPEC, "s", i), options(g, "o", kind, FORMS[form], i)[1]))
    if g.symbolic and not unit:
        g.assume(n.t > 0)
    us = g.D(g.kv("energy", u if unit else "eV"), g.kv("distance", w if unit else "Ang"))
    return document(g, "sedc_custom_params", *([g.line(g.sp0, u, g.sp, w)] if unit else []), rows, value=g.D(g.kv("units", us), vals))


@contract("C17", variants=[dict(noted=c) for c in (0, 1)])
def symmetry_ops(g, noted):
    n = g.count("n")

    def row(i):
        out = []
        for r in range(4):
            t, more = note(g, noted, i, r)
            out += [g.line(*spaced(g, fields(g, REAL, "x", i, r)), *t), *more]
        return out

    def v(i, r):
        return g.T(*[g.flt(x) for x in fields(g, REAL, "x", i, r)])
    return document(g, "symmetry_ops", g.rep(n, row),
                    value=g.L(g.rep(n, lambda i: [g.D(g.kv("r", g.L(*[v(i, r) for r in range(3)])), g.kv("t", v(i, 3)))])))


@contract("C17", variants=[dict(na=k, key=w) for k, w in ((2, "distance"), (3, "bend"), (4, "torsion"))])
def nonlinear_constraints(g, na, key):
    n = g.count("n")

    def at(i, a):
        return g.T(g.fld(SPEC, "s", i, a), g.int(g.fld(INT, "a", i, a)))
    g.each(n, lambda i: g.distinct(na, lambda a: at(i, a)))

    def row(i):
        out = [key]
        for a in range(na):
            out += [g.sp, g.fld(SPEC, "s", i, a), g.sp, g.fld(INT, "a", i, a), *spaced(g, fields(g, SINT, "x", i, a))]
        return [g.line(g.sp0, *out)]
    return document(g, "nonlinear_constraints", g.rep(n, row), value=g.L(g.rep(n, lambda i: [g.D(
        g.kv("key", key), g.kv("atoms", g.D(*[g.kv(at(i, a), g.T(*[g.int(x) for x in fields(g, SINT, "x", i, a)]))
                                              for a in range(na)])))])))


POTFILE = Lex("POTFILE", r"[A-Za-z_][A-Za-z0-9_.]*", lambda r: r.choice(["H_00.pp", "C19", "Si_OTF.usp", "QC5"]))


@contract("C17", variants=[dict(lib=b, noted=c) for b in (0, 1) for c in (0, 1)])
def species_pot(g, lib, noted):
    """Potential file names, and the library used for other species."""
    n, q = g.count("n"), g.fld(POTFILE, "lib")
    g.distinct(n, lambda i: g.fld(CELLSPEC, "s", i))
    rows = table(g, n, lambda i: [g.fld(CELLSPEC, "s", i), g.sp, g.fld(POTFILE, "p", i)], noted)
    vals = g.rep(n, lambda i: g.kv(g.fld(CELLSPEC, "s", i), g.fld(POTFILE, "p", i)))
    return document(g, "species_pot", rows, *([g.line(g.sp0, q)] if lib else []), value=g.D(vals, *([g.kv(None, q)] if lib else [])))


XCNAME = Lex("XCNAME", r"[A-MO-Za-mo-z][A-Za-z0-9]*", lambda r: r.choice(["LDA", "PBE", "HF", "b3lyp", "SCREENED"]))


@contract("C17", variants=[dict(flag=f) for f in ("ON", "OFF", "on", "off")])
def xc_definition(g, flag):
    n, x = g.count("n"), g.fld(FLT, "len")
    g.distinct(n, lambda i: g.lower(g.fld(XCNAME, "s", i)))
    rows = table(g, n, lambda i: [g.fld(XCNAME, "s", i), g.sp, g.fld(REAL, "w", i)], False)
    vals = g.rep(n, lambda i: g.kv(g.lower(g.fld(XCNAME, "s", i)), g.flt(g.fld(REAL, "w", i))))
    return document(g, "xc_definition", rows, g.line("NLXC_SCREENING_LENGTH", g.sp, x), g.line("nlxc_screening_function", g.sp, "error"),
                    g.line("nlxc_ppd_int", g.sp, flag), g.line("NLXC_DIVERGENCE_CORR", g.sp, flag),
                    value=g.D(g.kv("xc", g.D(vals)), g.kv("params", g.D(
                        g.kv("nlxc_screening_length", g.flt(x)), g.kv("nlxc_screening_function", "error"),
                        g.kv("nlxc_ppd_int", flag.upper() == "ON"), g.kv("nlxc_divergence_corr", flag.upper() == "ON")))))
