"""C19: sections of the main output file."""
from castep_outputs.parsers.castep_file_parser import Filters, parse_castep_file
from pyvc.contract import Case, contract

from .common import *

TAGSPEC = Lex("TAGSPEC", r"[A-Z][a-z]{0,2}:[A-Za-z0-9_]+", lambda r: r.choice(["H:D", "Fe:h_s", "Fe:up", "C:1", "Si:a2"]))
LABSPEC = Lex("LABSPEC", r"[A-Z][a-z]? \[[!-\\^-~]([ -\\^-~]*[!-\\^-~])?\]", lambda r: r.choice(["H [H1]", "O [site-1.a]", "N [x y]", "Si [up]", "Fe [a]"]))
NAMES = dict(plain=SPEC, tag=TAGSPEC, label=LABSPEC)


def parsed(g, lines, expect, filters=Filters.FULL):
    """The file holding just these lines gives one run with just these entries."""
    if isinstance(g, Part):
        return lines, expect
    return Case(parse_castep_file, [g.file(*lines), filters], expect=g.L(expect))


class Part:
    """Makes the lines and entries of one section among others: its fields have names and indices of their own."""

    def __init__(self, g, name, *idx, facts=True):
        self.g, self.name, self.idx, self.facts = g, name + ".", idx, facts

    def __getattr__(self, n):
        return getattr(self.g, n)

    def fld(self, lex, name, *idx):
        return self.g.fld(lex, self.name + name, *self.idx, *idx)

    def count(self, name, *idx, **kw):
        return self.g.count(self.name + name, *self.idx, *idx, **kw)

    def distinct(self, n, f):
        if self.facts:
            self.g.distinct(n, f)

    def each(self, n, f):
        if self.facts:
            self.g.each(n, f)


def key(g, lex, *idx):
    return g.T(g.fld(lex, "spec", *idx), g.int(g.fld(INT, "ind", *idx)))


def atoms(g, name="na", lex=SPEC, *idx, lo=0):
    n = g.count(name, *idx, lo=lo)
    g.distinct(n, lambda a: key(g, lex, *idx, a))
    return n


def box(ch, width, text=""):
    return f" {ch} {text:^{width}} {ch}"


STARS = " " + "*" * 84


def force_rows(g, na, lex, mark, *idx):
    return g.rep(na, lambda a: [g.line(
        " * ", g.fld(lex, "spec", *idx, a), g.sp, g.fld(INT, "ind", *idx, a),
        *[p for r in range(3) for p in (g.sp, g.fld(FLT, "f", *idx, a, r), mark)], " *")])


def force_head(g, title):
    return [g.line(f" {title:*^84}"), g.line(" *" + " " * 82 + "*"), g.line(" *" + f"{'Cartesian components (eV/A)':^82}" + "*"),
            g.line(" * " + "-" * 80 + " *"), g.line(" *                         x                    y                    z              *"),
            g.line(" *" + " " * 82 + "*")]


def force_value(g, na, lex, *idx):
    return g.D(g.rep(na, lambda a: [g.kv(key(g, lex, *idx, a), g.T(*[g.flt(g.fld(FLT, "f", *idx, a, r)) for r in range(3)]))]))


@contract("C19", variants=[dict(lex=x, mark=m, title=t) for x, m, t in
                           [("plain", "", ("", "non_descript")), ("plain", "(cons'd)", ("Constrained ", "constrained")),
                            ("plain", " (mixed)", ("Symmetrised ", "symmetrised")), ("label", "", ("", "non_descript")),
                            ("tag", "", ("Unconstrained ", "unconstrained"))]])
def forces(g, lex, mark, title):
    na = atoms(g, lex=NAMES[lex])
    lines = [*force_head(g, f" {title[0]}Forces "), force_rows(g, na, NAMES[lex], mark), g.line(" *" + " " * 82 + "*"), g.line(STARS)]
    return parsed(g, lines, g.D(g.kv("forces", g.D(g.kv(title[1], g.L(force_value(g, na, NAMES[lex])))))))


def floats(g, lex, name, *idx, n=3):
    """(fields, expected tuple of floats)"""
    fs = fields(g, lex, name, *idx, n=n)
    return fs, g.T(*[g.flt(f) for f in fs])


def cell_lines(g, density, *idx):
    lines = [g.line(f"{'':27}" + "-" * 31), g.line(f"{'':38}Unit Cell"), g.line(f"{'':27}" + "-" * 31),
             g.line("        Real Lattice(A)                      Reciprocal Lattice(1/A)")]
    real, recip = [], []
    for r in range(3):
        fa, va = floats(g, FLT, "real", *idx, r)
        fb, vb = floats(g, FLT, "recip", *idx, r)
        lines.append(g.line(g.sp0, *spaced(g, fa)[1:], *spaced(g, fb)))
        real.append(va)
        recip.append(vb)
    lines += [g.line(), g.line("                       Lattice parameters(A)       Cell Angles")]
    lens, angs = [], []
    for i, (a, ang) in enumerate([("a", "alpha"), ("b", "beta "), ("c", "gamma")]):
        la, an = g.fld(UFLT, "len", *idx, i), g.fld(UFLT, "ang", *idx, i)
        lines.append(g.line(f"{'':20}{a} = ", g.sp0, la, f"          {ang} = ", g.sp0, an))
        lens.append(g.flt(la))
        angs.append(g.flt(an))
    vol, amu, gcm = (g.fld(UFLT, x, *idx) for x in ("vol", "amu", "gcm"))
    lines += [g.line(), g.line("                       Current cell volume = ", g.sp0, vol, g.sp, "A**3")]
    props = [g.kv("volume", g.flt(vol))]
    if density:
        lines += [g.line("                                   density = ", g.sp0, amu, g.sp, "AMU/A**3")]
        props += [g.kv("density_amu", g.flt(amu))]
    if density > 1:
        lines += [g.line("                                           = ", g.sp0, gcm, g.sp, "g/cm^3")]
        props += [g.kv("density_g", g.flt(gcm))]
    return [*lines, g.line()], g.D(g.kv("real_lattice", g.L(*real)), g.kv("recip_lattice", g.L(*recip)),
                                   g.kv("lattice_parameters", g.L(*lens)), g.kv("cell_angles", g.L(*angs)), *props)


@contract("C19", variants=[dict(density=d) for d in (0, 1, 2)])
def unit_cell(g, density):
    lines, val = cell_lines(g, density)
    return parsed(g, lines, g.D(g.kv("initial_cell", val)))


XLINE = "        " + "x" * 60


def vec_table(g, head, na, lex, what, *idx):
    rows = g.rep(na, lambda a: [g.line("        x  ", g.fld(lex, "spec", *idx, a), g.sp, g.fld(INT, "ind", *idx, a),
                                       *spaced(g, fields(g, FLT, what, *idx, a)), "   x")])
    val = g.D(g.rep(na, lambda a: [g.kv(key(g, lex, *idx, a), g.T(*[g.flt(g.fld(FLT, what, *idx, a, r)) for r in range(3)]))]))
    return [g.line(XLINE), *[g.line("        " + h) for h in head], rows, g.line(XLINE)], val


POSHEAD = ["x  Element    Atom        Fractional coordinates of atoms  x",
           "x            Number           u          v          w      x",
           "x----------------------------------------------------------x"]


@contract("C19", variants=[dict(lex=x, what=w) for x in NAMES for w in ("positions", "velocities")])
def vectors(g, lex, what):
    na = atoms(g, lex=NAMES[lex])
    head = {"positions": POSHEAD,
            "velocities": ["x  Element    Atom        User Supplied Ionic Velocities   x",
                           "x            Number          Vx         Vy         Vz      x",
                           "x----------------------------------------------------------x"]}[what]
    lines, val = vec_table(g, head, na, NAMES[lex], "v")
    return parsed(g, lines, g.D(g.kv("initial_" + what, val)))


LAB8 = Lex("LAB8", r"[!-~]{1,8}", lambda r: r.choice(["H1", "H-1.a", "(x)", "x", "up", "site_1", "a", "Label123"]))


@contract("C19", variants=[dict(labelled=x) for x in (False, True)])
def labelled_positions(g, labelled):
    na = g.count("na")
    g.distinct(na, lambda a: g.T(g.fld(SPEC, "spec", a), g.int(g.fld(INT, "ind", a))))

    def name(a):
        return g.cat(g.fld(SPEC, "spec", a), " [", g.fld(LAB8, "lab", a), "]") if labelled else g.fld(SPEC, "spec", a)
    g.distinct(na, lambda a: g.T(name(a), g.int(g.fld(INT, "ind", a))))  # follows from the above
    rows = g.rep(na, lambda a: [g.line("     x  ", g.fld(SPEC, "spec", a), g.sp, g.fld(INT, "ind", a),
                                       *spaced(g, fields(g, FLT, "v", a)), "     ",
                                       g.fld(LAB8, "lab", a) if labelled else " " * 8, "    x")])
    lines = [g.line("     " + "x" * 74), g.line("     x  Element    Atom        Fractional coordinates of atoms  User-defined  x"),
             g.line("     x            Number           u          v          w          LABEL     x"),
             g.line("     x" + "-" * 72 + "x"), rows, g.line("     " + "x" * 74)]
    return parsed(g, lines, g.D(
        g.kv("labels", g.D(g.rep(na, lambda a: [g.kv(g.T(g.fld(SPEC, "spec", a), g.int(g.fld(INT, "ind", a))),
                                                     g.fld(LAB8, "lab", a) if labelled else "NULL")]))),
        g.kv("initial_positions", g.D(g.rep(na, lambda a: [g.kv(g.T(name(a), g.int(g.fld(INT, "ind", a))),
                                                                g.T(*[g.flt(g.fld(FLT, "v", a, r)) for r in range(3)]))])))))


FIX = Lex("FIX", r"[TF]", lambda r: r.choice("TF"))


@contract("C19", variants=[dict(lex=x) for x in NAMES])
def initial_spins(g, lex):
    lex = NAMES[lex]
    na = atoms(g, lex=lex)
    rows = g.rep(na, lambda a: [g.line("         | ", g.fld(lex, "spec", a), g.sp, g.fld(INT, "ind", a), g.sp, g.fld(FLT, "spin", a), g.sp,
                                       g.fld(FLT, "mom", a), g.sp, g.fld(FIX, "fix", a), "       |")])
    lines = [g.line("         " + "x" * 70), g.line("         |  Element    Atom         Initial            Initial magnetic       |"),
             g.line("         |            Number    spin polarization        moment (uB)     Fix? |"),
             g.line("         |" + "-" * 68 + "|"), rows, g.line("         " + "x" * 70)]
    return parsed(g, lines, g.D(g.kv("initial_spins", g.D(g.rep(na, lambda a: [g.kv(key(g, lex, a), g.D(
        g.kv("spin", g.flt(g.fld(FLT, "spin", a))), g.kv("magmom", g.flt(g.fld(FLT, "mom", a))),
        g.kv("fix", g.same(g.fld(FIX, "fix", a), "T"))))])))))


def stress_lines(g, title, *idx):
    f = {(r, c): g.fld(FLT, "s", *idx, min(r, c), max(r, c)) for r in range(3) for c in range(3)}
    w = 49
    lines = [g.line(" " + f" {title}Stress Tensor ".center(w, "*")), g.line(" *" + " " * (w - 2) + "*"),
             g.line(" *          Cartesian components (GPa)           *"), g.line(" * --------------------------------------------- *"),
             g.line(" *             x             y             z     *"), g.line(" *" + " " * (w - 2) + "*")]
    for r, x in enumerate("xyz"):
        lines.append(g.line(f" *  {x}", *spaced(g, [f[r, c] for c in range(3)]), "  *"))
    lines += [g.line(" *" + " " * (w - 2) + "*"), g.line(" *  Pressure: ", g.sp0, g.fld(FLT, "p", *idx), g.sp, "*"),
              g.line(" *" + " " * (w - 2) + "*"), g.line(" " + "*" * w)]
    return lines, g.T(*[g.flt(f[r, c]) for r, c in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2))])


@contract("C19", variants=[dict(title=t) for t in [("", "non_descript"), ("Symmetrised ", "symmetrised"), ("Fun ", "fun")]])
def stress(g, title):
    lines, val = stress_lines(g, title[0])
    return parsed(g, lines, g.D(g.kv("stresses", g.D(g.kv(title[1], g.L(val))))))


SH = ("s", "p", "d", "f", "total")


@contract("C19", variants=[dict(lex=x, spin=s) for x in NAMES for s in (0, 1, 2)])
def mulliken(g, lex, spin):
    lex = NAMES[lex]
    na = atoms(g, lex=lex)

    def row(a):
        up, dn = ([g.fld(FLT, f"{u}{o}", a) for o in SH] for u in ("up", "dn"))
        tail = [g.fld(FLT, x, a) for x in ("charge", "spin")[:1 + bool(spin)]]
        if spin < 2:
            return [g.line("  ", g.fld(lex, "spec", a), g.sp, g.fld(INT, "ind", a), *spaced(g, up), *spaced(g, tail))]
        return [g.line("  ", g.fld(lex, "spec", a), g.sp, g.fld(INT, "ind", a), g.sp, "up:", *spaced(g, up), *spaced(g, tail)),
                g.line(g.sp, g.fld(INT, "ind", a), g.sp, "dn:", *spaced(g, dn))]

    def val(a):
        up, dn = ([g.flt(g.fld(FLT, f"{u}{o}", a)) for o in SH] for u in ("up", "dn"))
        ch, sp = (g.flt(g.fld(FLT, x, a)) for x in ("charge", "spin"))
        if spin < 2:
            return g.D(g.kv("spin_sep", False), *[g.kv(o, v) for o, v in zip(SH, up)], g.kv("charge", ch), g.kv("spin", sp if spin else None))
        return g.D(g.kv("spin_sep", True), *[g.kv("up_" + o, v) for o, v in zip(SH, up)], *[g.kv("dn_" + o, v) for o, v in zip(SH, dn)],
                   g.kv("total", g.add(up[4], dn[4])), g.kv("charge", ch), g.kv("spin", sp))
    head = ["Species          Ion     s       p       d       f      Total   Charge (e)",
            "Species          Ion     s       p       d       f      Total   Charge (e)   Spin(hbar/2)",
            "Species          Ion Spin      s       p       d       f      Total   Charge(e)   Spin(hbar/2)"][spin]
    lines = [g.line("     Atomic Populations (Mulliken)"), g.line("     -----------------------------"), g.line(head), g.line("=" * 94),
             g.rep(na, row), g.line("=" * 94)]
    return parsed(g, lines, g.D(g.kv("mulliken_popn", g.D(g.rep(na, lambda a: [g.kv(key(g, lex, a), val(a))])))))


@contract("C19", variants=[dict(lex=x) for x in NAMES])
def hirshfeld(g, lex):
    lex = NAMES[lex]
    na = atoms(g, lex=lex)
    lines = [g.line("     Hirshfeld Analysis"), g.line("     ------------------"), g.line("Species   Ion     Hirshfeld Charge (e)"), g.line("=" * 38),
             g.rep(na, lambda a: [g.line("  ", g.fld(lex, "spec", a), g.sp, g.fld(INT, "ind", a), g.sp, g.fld(FLT, "q", a))]), g.line("=" * 38)]
    return parsed(g, lines, g.D(g.kv("hirshfeld", g.D(g.rep(na, lambda a: [g.kv(key(g, lex, a), g.flt(g.fld(FLT, "q", a)))])))))


IDLAB = Lex("IDLAB", r"[!-~]+", lambda r: r.choice(["geoff", "H-1.a", "2", "=a", "H1", "up"]))


@contract("C19", variants=[dict(lab=x, lex=y) for x, y in ((False, "plain"), (True, "plain"), (False, "tag"), (True, "tag"))])
def born_charges(g, lab, lex):
    na = g.count("na")

    def k(a):
        return g.T(g.cat(g.fld(NAMES[lex], "spec", a), " [", g.fld(IDLAB, "lab", a), "]") if lab else g.fld(NAMES[lex], "spec", a), g.int(g.fld(INT, "ind", a)))
    g.distinct(na, k)
    rows = g.rep(na, lambda a: [
        g.line("   ", g.fld(NAMES[lex], "spec", a), g.sp, g.fld(INT, "ind", a), *spaced(g, fields(g, FLT, "z", a, 0)),
               *([" ID=", g.fld(IDLAB, "lab", a)] if lab else [])),
        *[g.line(*spaced(g, fields(g, FLT, "z", a, r))) for r in (1, 2)]])
    lines = [g.line(" " + "=" * 51), g.line("                   Born Effective Charges"), g.line("                   ----------------------"),
             rows, g.line(" " + "=" * 51)]
    return parsed(g, lines, g.D(g.kv("born", g.L(g.D(g.rep(na, lambda a: [g.kv(k(a), g.T(
        *[g.T(*[g.flt(g.fld(FLT, "z", a, r, c)) for c in range(3)]) for r in range(3)]))]))))))


@contract("C19", variants=[dict(lex=x, spin=s) for x in NAMES for s in (False, True)])
def bonds(g, lex, spin):
    lex = NAMES[lex]
    nb = g.count("nb")

    def k(b):
        return g.T(*[g.T(g.fld(lex, "spec", b, i), g.int(g.fld(INT, "ind", b, i))) for i in (0, 1)])
    g.distinct(nb, k)
    rows = g.rep(nb, lambda b: [g.line(
        g.sp, g.fld(lex, "spec", b, 0), g.sp, g.fld(INT, "ind", b, 0), " -- ", g.fld(lex, "spec", b, 1), g.sp, g.fld(INT, "ind", b, 1),
        g.sp, g.fld(FLT, "pop", b), *([g.sp, g.fld(FLT, "spin", b)] if spin else []), g.sp, g.fld(UFLT, "len", b))])
    head = "                 Bond                   Population  " + ("      Spin     " if spin else "") + "    Length (A)"
    lines = [g.line(head), g.line("=" * 70), rows, g.line("=" * 70)]
    return parsed(g, lines, g.D(g.kv("bonds", g.D(g.rep(nb, lambda b: [g.kv(k(b), g.D(
        g.kv("population", g.flt(g.fld(FLT, "pop", b))), *([g.kv("spin", g.flt(g.fld(FLT, "spin", b)))] if spin else []),
        g.kv("length", g.flt(g.fld(UFLT, "len", b)))))])))))


@contract("C19")
def thermodynamics(g):
    nt = g.count("nt", lo=1)
    cols = ("t", "e", "f", "s", "cv")
    rows = g.rep(nt, lambda t: [g.line(*spaced(g, [g.fld(FLT, c, t) for c in cols]))])
    zp = g.fld(UFLT, "zp")
    bar = " " + "-" * 78
    lines = [g.line(" " + "=" * 69), g.line("                             Thermodynamics"), g.line("                             =============="), g.line(),
             g.line("            Zero-point energy = ", g.sp0, zp, "  eV"), g.line(bar),
             g.line("       T(K)        E(eV)           F(eV)         S(J/mol/K)      Cv(J/mol/K)"), g.line(bar), rows, g.line(bar), g.line(),
             g.line(" " + "=" * 78)]
    return parsed(g, lines, g.D(g.kv("thermodynamics", g.D(
        g.kv("zero_point_energy", g.flt(zp)), *[g.kv(c, g.T(column(g, nt, lambda t, c=c: g.flt(g.fld(FLT, c, t))))) for c in cols]))))


@contract("C19", variants=[dict(ni=n) for n in (1, 2)])
def dynamical_matrix(g, ni):
    n = 3 * ni
    # any number of rows; the number of columns is fixed
    nr = g.count("nr", lo=1)
    bar = "  " + "-" * 100

    def rows(part):
        return g.rep(nr, lambda r: [g.line(g.sp, g.fld(INT, "ion", r), g.sp, g.fld(INT, "xyz", r), *spaced(g, fields(g, FLT, part, r, n=n)))])
    lines = [g.line(bar), g.line("            Dynamical matrix"), g.line(" Ion XYZ        real part  ((cm-1)**2)"), rows("re"),
             g.line(" Ion XYZ        imaginary part  ((cm-1)**2)"), rows("im"), g.line(bar)]
    return parsed(g, lines, g.D(g.kv("dynamical_matrix", g.T(g.rep(nr, lambda r: [g.T(
        *[g.cplx(g.flt(g.fld(FLT, "re", r, c)), g.flt(g.fld(FLT, "im", r, c))) for c in range(n)])])))))


def plus(*parts):
    return [" +", *parts, " +"]


@contract("C19", variants=[dict(cols=c, irrep=i, along=a) for c in ("f", "ir", "ir+active", "raman") for i in (False, True) for a in (False, True)
                           if not (a and i)])
def phonons(g, cols, irrep, along):
    nq = g.count("nq", lo=1)
    nm = g.count("nm", lo=1)
    bar = " + " + "-" * 74 + " +"

    def mode(q, m):
        out = [g.sp, g.fld(INT, "N", q, m), g.sp, g.fld(FLT, "freq", q, m)]
        if irrep:
            out += [g.sp, g.fld(IRREP, "rep", q, m)]
        if cols != "f":
            out += [g.sp, g.fld(UFLT, "ir", q, m), g.sp, g.fld(YN, "ira", q, m)]
        if cols == "ir+active":
            out += [g.sp, g.fld(YN, "rama", q, m)]
        if cols == "raman":
            out += [g.sp, g.fld(UFLT, "ram", q, m), g.sp, g.fld(YN, "rama", q, m)]
        return [g.line(" +", *out, g.sp, "+")]

    def qpt(q):
        return [g.line(bar), g.line(" +  q-pt=", g.sp, g.fld(INT, "iq", q), " (", *spaced(g, fields(g, FLT, "q", q)), ")", g.sp, g.fld(UFLT, "w", q), g.sp, "+"),
                *([g.line(" +  q->0 along (", *spaced(g, fields(g, FLT, "dir", q)), ")", g.sp, "+")] if along else []), g.line(bar),
                g.line(" +  Acoustic sum rule correction < ", g.sp, g.fld(UFLT, "asr", q), " cm-1 applied", g.sp, "+"),
                g.line(" +     N      Frequency irrep.    ir intensity active  raman activity  active +"),
                g.line(" +                (cm-1)         ((D/A)**2/amu)              (A**4/amu)       +"),
                g.line(" +" + " " * 76 + "+"), g.rep(nm, lambda m: mode(q, m))]

    def colm(q, f, kind):
        return kind(column(g, nm, f))
    lines = [g.line(" " + "=" * 78), g.line(" +                           Vibrational Frequencies                          +"),
             g.line(" +                           -----------------------                          +"), g.line(" +" + " " * 76 + "+"),
             g.line(" + Performing frequency calculation at ", g.sp0, g.num(nq), " wavevectors (q-pts)                 +"),
             g.line(" + " + "=" * 74 + " +"), g.line(" +" + " " * 76 + "+"), g.rep(nq, qpt), g.line(" " + "=" * 78)]

    def val(q):
        es = [g.kv("qpt", g.T(*[g.flt(x) for x in fields(g, FLT, "q", q)])),
              g.kv("N", g.T(column(g, nm, lambda m: g.int(g.fld(INT, "N", q, m))))),
              g.kv("frequency", g.T(column(g, nm, lambda m: g.flt(g.fld(FLT, "freq", q, m)))))]
        if irrep:
            es.append(g.kv("irrep", g.L(column(g, nm, lambda m: g.fld(IRREP, "rep", q, m)))))
        if cols != "f":
            es.append(g.kv("ir_intensity", g.T(column(g, nm, lambda m: g.flt(g.fld(UFLT, "ir", q, m))))))
            es.append(g.kv("ir_active", g.L(column(g, nm, lambda m: g.fld(YN, "ira", q, m)))))
        if cols == "raman":
            es.append(g.kv("raman_intensity", g.T(column(g, nm, lambda m: g.flt(g.fld(UFLT, "ram", q, m))))))
        if cols in ("raman", "ir+active"):
            es.append(g.kv("raman_active", g.L(column(g, nm, lambda m: g.fld(YN, "rama", q, m)))))
        return [g.D(*es)]
    return parsed(g, lines, g.D(g.kv("phonons", g.L(g.rep(nq, val)))))


YN = Lex("YN", r"[YN]", lambda r: r.choice("YN"))
IRREP = Lex("IRREP", r"[a-zA-V]", lambda r: r.choice("abcdeABV"))


@contract("C19")
def band_structure(g):
    nk = g.count("nk", lo=1)
    nb = g.count("nb", lo=1)
    bar = "  + " + "-" * 65 + " +"

    def kpt(k):
        return [g.line(bar), g.line("  +  Spin=", g.fld(INT, "spin", k), " kpt= ", g.sp0, g.fld(INT, "ik", k), " (", *spaced(g, fields(g, FLT, "k", k)), ") kpt-group= ",
                                    g.sp0, g.fld(INT, "grp", k), "  +"), g.line(bar), g.line("  +" + " " * 67 + "+"),
                g.rep(nb, lambda b: [g.line("  +", g.sp, g.fld(INT, "ib", k, b), g.sp, g.fld(FLT, "e", k, b), g.sp, "+")])]
    lines = [g.line("  + " + "=" * 65 + " +"), g.line("  +" + " " * 67 + "+"),
             g.line("  +     Band Structure Calculation: Progress report on root process   +"), g.line("  +" + " " * 67 + "+"),
             g.line("  +   There are   ", g.fld(INT, "nk"), " BS k-points. Root process contains   ", g.fld(INT, "nkr"), " of them. +"), g.line("  +" + " " * 67 + "+"),
             g.rep(g.count("np"), lambda p: [g.line("  +   Spin= ", g.fld(INT, "ps", p), " of  ", g.fld(INT, "pn", p), ", K-point= ", g.sp0, g.fld(INT, "pk", p), " of  ", g.sp0,
                                                    g.fld(INT, "pkn", p), " completed, Time: ", g.sp0, g.fld(UFLT, "pt", p), "s. +")]),
             g.line("  +   Finished BS calculation on root process (waiting for others).   +"), g.line("  +" + " " * 67 + "+"),
             g.line("  + " + "=" * 65 + " +"), g.line("  +                       Electronic energies                         +"),
             g.line("  +                       -------------------                         +"), g.line("  +" + " " * 67 + "+"),
             g.line("  +   Band number   Energy in eV                                      +"), g.line("  + " + "=" * 65 + " +"),
             g.line("  +" + " " * 67 + "+"), g.rep(nk, kpt), g.line("  " + "=" * 69)]
    return parsed(g, lines, g.D(g.kv("bs", g.L(g.rep(nk, lambda k: [g.D(
        g.kv("spin", g.int(g.fld(INT, "spin", k))), *[g.kv("k" + x, g.flt(g.fld(FLT, "k", k, i))) for i, x in enumerate("xyz")],
        g.kv("kpgrp", g.int(g.fld(INT, "grp", k))), g.kv("band", g.T(column(g, nb, lambda b: g.int(g.fld(INT, "ib", k, b))))),
        g.kv("energy", g.T(column(g, nb, lambda b: g.flt(g.fld(FLT, "e", k, b))))))])))))


SCFBAR = "-" * 72 + " <-- SCF"
SCFHEAD = ["SCF loop      Energy           Fermi           Energy gain       Timer   <-- SCF",
           "                               energy          per atom          (sec)   <-- SCF"]
SCFEXTRA = {"": ([], []), "residual": ([" Norm of density residual is ", ("res", EFLT)], "density_residual"),
            "not mixed": ([" Density was not mixed in this cycle"], "density_residual"),
            "constraint": ([" Total constraint energy:  ", ("con", EFLT), " eV"], "constraint_energy"),
            "dipole": ([" Correcting PBC dipole-dipole with self-consistent dipole; energy= ", ("dip", FLT), " eV"], "dipole_corr_energy")}


def scf_rows(g, n, extra, *idx):
    def cycle(c):
        tail, _ = SCFEXTRA[extra]
        return [g.line(g.sp, g.fld(INT, "cyc", *idx, c), g.sp, g.fld(EFLT, "E", *idx, c), g.sp, g.fld(EFLT, "F", *idx, c), g.sp, g.fld(EFLT, "G", *idx, c), g.sp,
                       g.fld(UFLT, "t", *idx, c), "  <-- SCF"),
                *([g.line(*[p if isinstance(p, str) else g.cat(g.sp, g.fld(p[1], p[0], *idx, c)) for p in tail])] if tail else [])]
    return [g.line(SCFBAR), *[g.line(h) for h in SCFHEAD], g.line(SCFBAR),
            g.line("Initial ", g.sp0, g.fld(EFLT, "E0", *idx), g.sp, g.fld(EFLT, "F0", *idx), g.sp, g.fld(UFLT, "t0", *idx), "  <-- SCF"),
            g.rep(n, cycle), g.line(SCFBAR)]


def scf_value(g, n, extra, *idx):
    def cycle(c):
        tail, name = SCFEXTRA[extra]
        got = [p for p in tail if isinstance(p, tuple)]
        return [g.D(g.kv("energy", g.flt(g.fld(EFLT, "E", *idx, c))), g.kv("fermi_energy", g.flt(g.fld(EFLT, "F", *idx, c))),
                    g.kv("energy_gain", g.flt(g.fld(EFLT, "G", *idx, c))), g.kv("time", g.flt(g.fld(UFLT, "t", *idx, c))),
                    *([g.kv(name, g.flt(g.fld(got[0][1], got[0][0], *idx, c)) if got else None)] if tail else []))]
    return g.L(g.D(g.kv("energy", g.flt(g.fld(EFLT, "E0", *idx))), g.kv("fermi_energy", g.flt(g.fld(EFLT, "F0", *idx))), g.kv("energy_gain", None),
                   g.kv("time", g.flt(g.fld(UFLT, "t0", *idx)))), g.rep(n, cycle))


@contract("C19", variants=[dict(extra=x) for x in SCFEXTRA])
def scf(g, extra):
    n = g.count("ncyc")
    return parsed(g, scf_rows(g, n, extra), g.D(g.kv("scf", g.L(scf_value(g, n, extra)))))


@contract("C19")
def scf_fixed_occupancy(g):
    """Without a Fermi energy column (insulators)."""
    n = g.count("ncyc")
    lines = [g.line(SCFBAR), g.line("SCF loop      Energy                           Energy gain       Timer   <-- SCF"),
             g.line("                                               per atom          (sec)   <-- SCF"), g.line(SCFBAR),
             g.line("Initial ", g.sp0, g.fld(EFLT, "E0"), g.sp, g.fld(UFLT, "t0"), "  <-- SCF"),
             g.rep(n, lambda c: [g.line(g.sp, g.fld(INT, "cyc", c), g.sp, g.fld(EFLT, "E", c), g.sp, g.fld(EFLT, "G", c), g.sp, g.fld(UFLT, "t", c), "  <-- SCF")]),
             g.line(SCFBAR)]
    return parsed(g, lines, g.D(g.kv("scf", g.L(g.L(
        g.D(g.kv("energy", g.flt(g.fld(EFLT, "E0"))), g.kv("energy_gain", None), g.kv("time", g.flt(g.fld(UFLT, "t0")))),
        g.rep(n, lambda c: [g.D(g.kv("energy", g.flt(g.fld(EFLT, "E", c))), g.kv("energy_gain", g.flt(g.fld(EFLT, "G", c))), g.kv("time", g.flt(g.fld(UFLT, "t", c))))]))))))


@contract("C19")
def several_scf(g):
    """Every cycle list is kept, in order of appearance."""
    n, m = g.count("nscf", lo=1), g.count("ncyc")
    return parsed(g, [g.rep(n, lambda s: [*scf_rows(g, m, "", s), g.line()])], g.D(g.kv("scf", g.L(g.rep(n, lambda s: [scf_value(g, m, "", s)])))))


@contract("C19", variants=[dict(kind=k) for k in ("mp", "mp+offset", "number")])
def kpoint_summary(g, kind):
    mp = fields(g, INT, "mp")
    off, offv = floats(g, FLT, "off")
    nk = g.fld(INT, "nk")
    lines = [g.line(" " * 27 + "-" * 31), g.line(" " * 30 + "k-Points For BZ Sampling"), g.line(" " * 27 + "-" * 31)]
    es = []
    if "mp" in kind:
        lines.append(g.line("                       MP grid size for SCF calculation is", *spaced(g, mp)))
        es.append(g.kv("kpoint_mp_grid", g.T(*[g.int(m) for m in mp])))
    if "offset" in kind:
        lines.append(g.line("                            with an offset of ", *spaced(g, off)))
        es.append(g.kv("kpoint_mp_offset", offv))
    lines += [g.line("                       Number of kpoints used = ", g.sp0, nk), g.line()]
    es.append(g.kv("num_kpoints", g.int(nk)))
    return parsed(g, lines, g.D(g.kv("k-points", g.D(*es))))


MATS = {"permittivity": (["        Optical Permittivity (f->infinity)             DC Permittivity (f=0)",
                          "        ----------------------------------             ---------------------"], " =====", " " + "=" * 79, "optical_permittivity", "dc_permittivity"),
        "polarisability": (["                                    Polarisabilities (A**3)",
                            "                Optical (f->infinity)                       Static  (f=0)",
                            "                ---------------------                       -------------"], " =====", " " + "=" * 79,
                           "optical_polarisability", "static_polarisability")}


@contract("C19", variants=[dict(what=w, both=b) for w in MATS for b in (False, True)])
def response_tensor(g, what, both):
    head, _, bar, one, two = MATS[what]
    if not both:
        head = [h[:h.rindex("  ", 0, len(h.rstrip()) - 1)].rstrip() if "Static" in h or "DC" in h or h.count("-----") > 8 else h for h in head]
    rows, a, b = [], [], []
    for r in range(3):
        fa, va = floats(g, FLT, "a", r)
        fb, vb = floats(g, FLT, "b", r)
        rows.append(g.line(*spaced(g, fa), *(spaced(g, fb) if both else [])))
        a.append(va)
        b.append(vb)
    return parsed(g, [g.line(bar), *[g.line(h) for h in head], *rows, g.line(bar)],
                  g.D(g.kv(one, g.T(*a)), *([g.kv(two, g.T(*b))] if both else [])))


WIDE = {"nlo": ([" " + "=" * 75, "      Nonlinear Optical Susceptibility (pm/V)", "      ---------------------------------------"], " " + "=" * 75, 3, None, "nlo"),
        "elastic": ([" " + "=" * 79, "                          Elastic Constants Tensor (GPa)", " " + "-" * 79], " " + "=" * 79, 6, "elastic", "elastic_constants"),
        "compliance": ([" " + "=" * 79, "                           Compliance Matrix (GPa^-1)", " " + "-" * 79], " " + "=" * 79, 6, "elastic", "compliance_matrix"),
        "ewald": (["Ewald Contribution ::"], "", 6, "elastic", "Ewald Contribution"),
        "psi": (["<psi^1|H^(1)|psi^0> Contribution ::"], "", 6, "elastic", "<psi^1|H^(1)|psi^0> Contribution")}


@contract("C19", variants=[dict(what=w) for w in WIDE])
def six_columns(g, what):
    head, bar, nr, outer, name = WIDE[what]
    rows = [floats(g, FLT, "m", r, n=6) for r in range(nr)]
    val = g.kv(name, g.T(*[v for _, v in rows]))
    return parsed(g, [*[g.line(h) for h in head], *[g.line(*spaced(g, f)) for f, _ in rows], g.line(bar)],
                  g.D(g.kv(outer, g.D(val)) if outer else val))


@contract("C19", variants=[dict(lex=x) for x in NAMES])
def displacements(g, lex):
    """One block of atoms for each of any number of temperatures."""
    lex = NAMES[lex]
    nt = g.count("nt", lo=1)
    na = g.count("na", lo=1)
    g.distinct(nt, lambda t: g.fld(UFLT, "T", t))
    g.distinct(na, lambda a: key(g, lex, a))
    bar = " " + "-" * 78
    rows = g.rep(nt, lambda t: [g.rep(na, lambda a: [g.line(g.sp, g.fld(UFLT, "T", t), g.sp, g.fld(lex, "spec", a), g.sp, g.fld(INT, "ind", a),
                                                            *spaced(g, fields(g, FLT, "u", t, a, n=6)))])])
    lines = [g.line(" " + "=" * 78), g.line("                      Atomic Displacement Parameters (A**2)"), g.line("                      =============================="), g.line(),
             g.line(bar), g.line("      T(K)  Ion        U11       U22       U33       U23       U31       U12"), g.line(bar), rows, g.line(bar), g.line()]
    return parsed(g, lines, g.D(g.kv("atomic_displacements", g.D(g.rep(nt, lambda t: [g.kv(g.fld(UFLT, "T", t), g.D(
        g.rep(na, lambda a: [g.kv(key(g, lex, a), g.T(*[g.flt(g.fld(FLT, "u", t, a, i)) for i in range(6)]))])))])))))


ASYM = Lex("ASYM", r"\d+\.\d+", lambda r: f"{r.uniform(0, 1):.2f}")
SHIELD = {"shielding": ("Chemical Shielding Tensor", "Chemical Shielding", [("cs_iso", FLT), ("cs_aniso", FLT), ("asym", ASYM)]),
          "both": ("Chemical Shielding and Electric Field Gradient Tensors", "Chemical Shielding and Electric Field Gradient",
                   [("cs_iso", FLT), ("cs_aniso", FLT), ("asym", ASYM), ("cq", EFLT), ("eta", UFLT)]),
          "efg": ("Electric Field Gradient Tensor", "Electric Field Gradient", [("cq", EFLT), ("asym", ASYM)]),
          "j": ("Isotropic J-coupling", "(An)Isotropic J-coupling", [(x, FLT) for x in ("fermi_contact", "spin_dipolar", "paramagnetic", "diamagnetic", "total")]),
          "ja": ("Anisotropic J-coupling", "(An)Isotropic J-coupling", [(x, FLT) for x in ("fermi_contact", "spin_dipolar", "paramagnetic", "diamagnetic", "total")]),
          "hf": ("Hyperfine Tensor", "Hyperfine", [("hf_iso", EFLT)])}


@contract("C19", variants=[dict(what=w, lex=x, na_asym=n) for w in SHIELD for x in NAMES for n in (False, True)
                           if not (n and not any(c == "asym" for c, _ in SHIELD[w][2]))])
def magnetic(g, what, lex, na_asym):
    title, task, cols = SHIELD[what]
    lex = NAMES[lex]
    na = atoms(g, lex=lex)

    def row(a):
        out = []
        for c, lx in cols:
            out += [g.sp, "N/A" if c == "asym" and na_asym else g.fld(lx, c, a)]
        return [g.line("  |   ", g.fld(lex, "spec", a), g.sp, g.fld(INT, "ind", a), *out, "   |")]
    lines = [g.line("  " + "=" * 80), g.line(f"  |{title:^78}|"), g.line("  |" + "-" * 78 + "|"),
             g.line("  |     Nucleus                            Tensor                                |"),
             g.line("  |  Species            Ion            Values                                     |"), g.rep(na, row), g.line("  " + "=" * 80)]
    return parsed(g, lines, g.D(g.kv("magres", g.L(g.D(g.kv("task", task), g.rep(na, lambda a: [g.kv(key(g, lex, a), g.D(
        *[g.kv(c, None if c == "asym" and na_asym else g.flt(g.fld(lx, c, a))) for c, lx in cols]))]))))))


EXTYPE = Lex("EXTYPE", r"[A-Za-z]+", lambda r: r.choice(["spurious", "Singlet", "Triplet"]))


@contract("C19")
def tddft(g):
    n = g.count("nst")
    bar = "  + " + "=" * 65 + " +TDDFT"
    lines = [g.line(bar), g.line("  +                     TDDFT excitation energies                     +TDDFT"),
             g.line("  +                     -------------------------                     +TDDFT"),
             g.line("  +   State number         Energy in   eV     Estimated error         +TDDFT"), g.line(bar), g.line("  +" + " " * 67 + "+TDDFT"),
             g.rep(n, lambda s: [g.line("  +", g.sp, g.fld(INT, "st", s), g.sp, g.fld(FLT, "e", s), g.sp, g.fld(EFLT, "err", s), g.sp, g.fld(EXTYPE, "ty", s), g.sp, "+TDDFT")]),
             g.line("  +" + " " * 67 + "+TDDFT"), g.line(bar), g.line("  +  TDDFT calculation time:      39.35                               +TDDFT"), g.line(bar)]
    return parsed(g, lines, g.D(g.kv("tddft", g.L(g.rep(n, lambda s: [g.D(
        g.kv("energy", g.flt(g.fld(FLT, "e", s))), g.kv("error", g.flt(g.fld(EFLT, "err", s))), g.kv("type", g.fld(EXTYPE, "ty", s)))])))))


@contract("C19")
def elf(g):
    n = g.count("n")
    lines = [g.line("      ELF grid sample"), g.line("-----------------------"), g.rep(n, lambda i: [g.line(" ELF ", g.sp, g.fld(INT, "i", i), g.sp, g.fld(FLT, "v", i))]),
             g.line("-----------------------")]
    return parsed(g, lines, g.D(g.kv("elf", g.L(column(g, n, lambda i: g.flt(g.fld(FLT, "v", i)))))))


@contract("C19", variants=[dict(vector=v, mod=m) for v in (False, True) for m in (False, True)])
def spin_density(g, vector, mod):
    fs, v = floats(g, FLTX, "s", n=3)
    if vector:
        line = g.line("2*Integrated " + ("|Spin Density| (|Sx|,|Sy|,|Sz|)" if mod else "Spin Density (Sx,Sy,Sz)") + " =", *spaced(g, fs), "     hbar/2")
    else:
        line = g.line("Integrated " + ("|Spin Density|" if mod else "Spin Density") + "     =", g.sp, fs[0], " hbar/2")
        v = g.flt(fs[0])
    return parsed(g, [line], g.D(g.kv("modspin" if mod else "spin", g.L(v))))


@contract("C19")
def occupancies(g):
    n = g.count("nb")
    bar = "+--------+-------------------+----------------+"
    lines = [g.line("Spin ", g.fld(INT, "spin"), ", kpoint (", *spaced(g, fields(g, FLT, "k")), " ) weight = ", g.fld(UFLT, "w")), g.line(bar),
             g.line("|  Band  |   Eigenvalue      |    Occupancy   |                   <- occ"), g.line(bar + "                   <- occ"),
             g.rep(n, lambda b: [g.line("| ", g.sp0, g.fld(INT, "ib", b), "  |  ", g.sp0, g.fld(FLTX, "e", b), "  |  ", g.sp0, g.fld(FLTX, "o", b), "  |   <- occ")]),
             g.line(bar + "                   <- occ"), g.line("Have a nice day.")]
    return parsed(g, lines, g.D(g.kv("occupancies", g.L(g.L(g.rep(n, lambda b: [g.D(
        g.kv("band", g.int(g.fld(INT, "ib", b))), g.kv("eigenvalue", g.flt(g.fld(FLTX, "e", b))), g.kv("occupancy", g.flt(g.fld(FLTX, "o", b))))]))))))


@contract("C19", variants=[dict(n=n, un=u) for n in (1, 2, 3) for u in (0, 2)])
def line_minimisation(g, n, un):
    e0, d0 = g.fld(EFLT, "E"), g.fld(EFLT, "dE")
    st, stv = floats(g, EFLT, "st", n=n)
    ga, gav = floats(g, EFLT, "gain", n=n)
    edge = "+--------+--------------------------------------------------------------+<- line"
    pad = " unnecessary" * un
    lines = [g.line("+------------------- WAVEFUNCTION LINE MINIMISATION --------------------+<- line"),
             g.line("| Initial energy = ", g.sp0, e0, " eV; initial dE/dstep = ", g.sp0, d0, " eV |<- line"),
             g.line("|                                                                       |<- line"),
             g.line("|            1st step    2nd step    3rd step    4th step    5th step   |<- line"), g.line(edge),
             g.line("| step   |", *spaced(g, st), "*", pad, "  |<- line"), g.line("| gain   |", *spaced(g, ga), "*", pad, "  |<- line"), g.line(edge)]
    return parsed(g, lines, g.D(g.kv("wvfn_line_min", g.L(g.D(g.kv("init_energy", g.flt(e0)), g.kv("init_de_dstep", g.flt(d0)),
                                                              g.kv("steps", stv), g.kv("gain", gav))))))


@contract("C19", variants=[dict(lex=x) for x in ("plain", "tag")])
def orbital_populations(g, lex):
    """Any number of orbitals of any number of atoms, and the total."""
    lex = NAMES[lex]
    na, no = g.count("na"), g.count("no", lo=1)
    g.distinct(na, lambda a: key(g, lex, a))
    g.each(na, lambda a: g.distinct(no, lambda o: g.fld(ORB, "orb", a, o)))
    bar = "  " + "-" * 43
    lines = [g.line("            Orbital Populations"), g.line("     Ion    Atom   Orbital             Charge"), g.line(bar),
             g.rep(na, lambda a: [g.rep(no, lambda o: [g.line(g.sp, g.fld(lex, "spec", a), g.sp, g.fld(INT, "ind", a), g.sp, g.fld(ORB, "orb", a, o), g.sp, g.fld(FLT, "q", a, o))])]),
             g.line(bar), g.line("                           Total: ", g.sp0, g.fld(UFLT, "tot")), g.line(bar)]
    return parsed(g, lines, g.D(g.kv("orbital_popn", g.D(g.rep(na, lambda a: [g.kv(key(g, lex, a), g.D(
        g.rep(no, lambda o: [g.kv(g.fld(ORB, "orb", a, o), g.flt(g.fld(FLT, "q", a, o)))])))]), g.kv("total", g.flt(g.fld(UFLT, "tot")))))))


ORB = Lex("ORB", r"[SPDF][xyz]?", lambda r: r.choice(["S", "Px", "Py", "Pz", "Dx", "Fz", "Sy", "P"]))


@contract("C19")
def phonon_symmetry(g, n=3):
    nr = g.count("nr")
    lines = [g.line("  " + "*" * 72), g.line("  Phonon Symmetry Analysis: Elements of D with same absolute magnitude"), g.line("  " + "*" * 72),
             g.rep(nr, lambda r: [g.line(*spaced(g, fields(g, INT, "m", r, n=n)))]), g.line()]
    return parsed(g, lines, g.D(g.kv("phonon_symmetry_analysis", g.L(g.D(
        g.kv("title", "Elements of D with same absolute magnitude"),
        g.kv("mat", g.T(g.rep(nr, lambda r: [g.T(*[g.int(g.fld(INT, "m", r, i)) for i in range(n)])]))))))))


@contract("C19")
def target_stress(g):
    f = [g.fld(FLT, "s", i) for i in range(6)]
    lines = [g.line("                         External pressure/stress (GPa)"), g.line(*spaced(g, f[:3])), g.line(*spaced(g, f[3:5])), g.line(*spaced(g, f[5:])), g.line()]
    return parsed(g, lines, g.D(g.kv("target_stress", g.L(g.L(*[g.flt(x) for x in f])))))


@contract("C19", variants=[dict(mode=m, lex=x) for m in ("Reactant", "Product") for x in NAMES])
def end_points(g, mode, lex):
    na = atoms(g, lex=NAMES[lex])
    lines, val = vec_table(g, POSHEAD, na, NAMES[lex], "v")
    return parsed(g, [g.line(XLINE), g.line(f"        x{mode:^58}x"), *lines], g.D(g.kv(mode.lower(), val)))


@contract("C19", variants=[dict(points=p) for p in (0, 1)])
def kpoint_list(g, points):
    """Every k-point of the list, with its weight (qz: the finding)."""
    n = g.count("nk", lo=points)
    def points_(third):
        return g.L(g.rep(n, lambda k: [g.D(g.kv("qpt", g.T(*[g.flt(g.fld(FLT, "q", k, c)) for c in (0, 1, third)])), g.kv("weight", g.flt(g.fld(UFLT, "w", k))))]))

    def want(third):
        return g.L(g.D(g.kv("k-points", g.D(g.kv("points", points_(third)), g.kv("num_kpoints", n)))))
    edge = "             " + "+" * 55
    lines = [g.line(edge), g.line("             +  Number       Fractional coordinates        Weight  +"), g.line("             +" + "-" * 53 + "+"),
             g.rep(n, lambda k: [g.line("             +  ", g.sp0, g.fld(INT, "ik", k), *spaced(g, fields(g, FLT, "q", k)), g.sp, g.fld(UFLT, "w", k), "  +")]), g.line(edge)]
    return Case(parse_castep_file, [g.file(*lines), Filters.FULL], expect=want(2), known=[("C19-kpoint-qz", want(0))])


ENERGY = {"final": ("Final energy, E             =", "final_energy"), "final2": ("Final energy =", "final_energy"),
          "free": ("Final free energy (E-TS)    =", "free_energy"), "0K": ("NB est. 0K energy (E-0.5TS)      =", "est_0K"),
          "corrected": (" Total energy corrected for finite basis set =", "final_basis_set_corrected"),
          "sedc": ("(SEDC) Total Energy Correction : ", "sedc_correction"), "disp": ("Dispersion corrected final energy* =", "disperson_corrected"),
          "solvation": (" Free energy of solvation = ", "solvation")}


@contract("C19", variants=[dict(what=w) for w in ENERGY])
def energies(g, what):
    """Every energy printed under a heading is kept, in order."""
    n = g.count("n", lo=1)
    text, name = ENERGY[what]
    return parsed(g, [g.rep(n, lambda i: [g.line(text, g.sp, g.fld(EFLT, "E", i), g.sp, "eV")])],
                  g.D(g.kv("energies", g.D(g.kv(name, g.T(g.rep(n, lambda i: [g.flt(g.fld(EFLT, "E", i))])))))))


MDKEYS = [("time ", "time", "ps"), ("Potential Energy", "potential_energy", "eV"), ("Kinetic   Energy", "kinetic_energy", "eV"), ("Total     Energy", "total_energy", "eV"),
          ("Enthalpy", "enthalpy", "eV"), ("Hamilt    Energy", "hamilt_energy", "eV"), ("Temperature", "temperature", "K"), ("T/=0 Pressure", "t_0_pressure", "GPa")]


def md_data(g, keys, *idx):
    rows = [g.line(f"            x   {k}:", g.sp, g.fld(FLT, "md" + name, *idx), g.sp, unit, "     x") for k, name, unit in keys]
    return ([g.line("            " + "x" * 62), g.line("            x                                               MD Data:     x"), g.line("            x" + " " * 60 + "x"),
             *rows, g.line("            " + "x" * 62)],
            [g.kv(name, g.flt(g.fld(FLT, "md" + name, *idx))) for _, name, _ in keys])


@contract("C19")
def md_table(g):
    lines, vals = md_data(g, MDKEYS)
    return Case(parse_castep_file, [g.file(*lines), Filters.FULL], expect=g.L(g.D(*vals)), known=[("C19-md-pressure", g.L(g.D(*vals[:-1])))])


@contract("C19", variants=[dict(parts=p) for p in ("data", "cell", "positions", "forces", "stress", "energies", "all")], round=8)
def md_steps(g, parts):
    """Every step, in order, with what was printed between its start and its end."""
    n = g.count("steps", lo=1)
    na = g.count("na")
    if parts in ("positions", "forces", "all"):
        g.each(n, lambda s: g.distinct(na, lambda a: key(g, SPEC, s, a)))

    def step(s):
        lines, vals = [g.line("=" * 80), g.line(" Starting MD iteration ", g.sp, g.fld(INT, "it", s), " ..."), g.line("=" * 80), g.line()], []
        if parts in ("cell", "all"):
            ls, v = cell_lines(g, 2, s)
            lines += ls
            vals.append(g.kv("cell", v))
        if parts in ("positions", "all"):
            ls, v = vec_table(g, POSHEAD, na, SPEC, "v", s)
            lines += [*ls, g.line()]
            vals.append(g.kv("positions", v))
        if parts in ("energies", "all"):
            lines += [g.line("Final energy, E             =", g.sp, g.fld(EFLT, "E", s), "     eV"), g.line("Final free energy (E-TS)    =", g.sp, g.fld(EFLT, "F", s), "     eV"),
                      g.line(), g.line("NB est. 0K energy (E-0.5TS)      =", g.sp, g.fld(EFLT, "Z", s), "     eV"), g.line()]
            vals.append(g.kv("energies", g.D(*[g.kv(k, g.T(g.flt(g.fld(EFLT, e, s)))) for k, e in (("final_energy", "E"), ("free_energy", "F"), ("est_0K", "Z"))])))
        if parts in ("forces", "all"):
            lines += [*force_head(g, " Forces "), force_rows(g, na, SPEC, "", s), g.line(" *" + " " * 82 + "*"), g.line(STARS), g.line()]
            vals.append(g.kv("forces", g.D(g.kv("non_descript", g.L(force_value(g, na, SPEC, s))))))
        if parts in ("stress", "all"):
            ls, v = stress_lines(g, "", s)
            lines += [*ls, g.line()]
            vals.append(g.kv("stresses", g.D(g.kv("non_descript", g.L(v)))))
        if parts in ("data", "all"):
            ls, v = md_data(g, MDKEYS[:-1], s)
            lines += [*ls, g.line()]
            vals += v
        return [*lines, g.line(" ... finished MD iteration ", g.sp, g.fld(INT, "it", s)), g.line()], g.D(*vals)
    return parsed(g, [g.rep(n, lambda s: step(s)[0])], g.D(g.kv("md", g.L(g.rep(n, lambda s: [step(s)[1]])))))


CONV = [("dE/ion ", "de_ion", "eV"), (" |F|max ", "f_max", "eV/A"), (" |dR|max", "dr_max", "A"), (" Smax   ", "smax", "GPa")]
MINROWS = ["previous", "trial step", "line step", "quad step"]


def conv_table(g, minim, *idx):
    edge = f" +-----------+-----------------+-----------------+------------+-----+ <-- {minim}"
    rows = [g.line(f" | {t} |", g.sp, g.fld(EFLT, "val" + k, *idx), g.sp, "|", g.sp, g.fld(EFLT, "tol" + k, *idx), g.sp, f"| {u:>10} | ", g.fld(YESNO, "ok" + k, *idx), g.sp, f"| <-- {minim}")
            for t, k, u in CONV]
    return ([g.line(edge), g.line(f" | Parameter |      value      |    tolerance    |    units   | OK? | <-- {minim}"), g.line(edge), *rows, g.line(edge)],
            g.D(*[g.kv(k, g.D(g.kv("value", g.flt(g.fld(EFLT, "val" + k, *idx))), g.kv("tolerance", g.flt(g.fld(EFLT, "tol" + k, *idx))),
                              g.kv("converged", g.same(g.fld(YESNO, "ok" + k, *idx), "Yes")))) for _, k, _ in CONV]))


def min_table(g, minim, n, *idx):
    edge = f" +------------+-------------+-------------+-----------------+ <-- min {minim}"
    cols = ("lambda", "fdelta", "enthalpy")
    rows = [g.line(f" | {r:^10} |", *[p for c in cols for p in (g.sp, g.fld(FLT, f"{c}{i}", *idx), " |")], f" <-- min {minim}") for i, r in enumerate(MINROWS[:n])]
    return ([g.line(edge), g.line(f" |    Step    |   lambda    |   F.delta'  |    enthalpy     | <-- min {minim}"), g.line(edge), *rows, g.line(edge)],
            g.D(*[g.kv(r, g.D(*[g.kv(c, g.flt(g.fld(FLT, f"{c}{i}", *idx))) for c in cols])) for i, r in enumerate(MINROWS[:n])]))


YESNO = Lex("YESNO", r"Yes|No", lambda r: r.choice(["Yes", "No"]))
MINIM = ("BFGS", "LBFGS", "TPSD", "FIRE", "DMD", "DI")


@contract("C19", variants=[dict(minim=m) for m in MINIM])
def convergence_table(g, minim):
    lines, val = conv_table(g, minim)
    return parsed(g, lines, g.D(g.kv("minimisation", g.L(val))))


@contract("C19", variants=[dict(minim=m, n=n) for m in MINIM[:2] for n in (1, 2, 3, 4)])
def step_table(g, minim, n):
    lines, val = min_table(g, minim, n)
    return parsed(g, lines, g.D(g.kv("minimisation", g.L(val))))


def final_config(g, minim, na):
    cl, cv = cell_lines(g, 2)
    pl, pv = vec_table(g, POSHEAD, na, SPEC, "v")
    bar = "                           -------------------------------"
    return ([g.line("=" * 80), g.line(f" {minim}: Final Configuration:"), g.line("=" * 80), g.line(), *cl,
             g.line(bar), g.line("                                     Cell Contents"), g.line(bar), g.line(), *pl, g.line(), g.line(),
             g.line(f" {minim}: Final Enthalpy     = ", g.sp0, g.fld(EFLT, "H"), " eV"), g.line(f" {minim}: Final <frequency>  unchanged from initial value"),
             g.line(f" {minim}: Final bulk modulus = ", g.sp0, g.fld(FLT, "B"), " GPa")],
            g.D(g.kv("cell", cv), g.kv("atoms", pv), g.kv("final_enthalpy", g.flt(g.fld(EFLT, "H"))), g.kv("final_bulk_modulus", g.flt(g.fld(FLT, "B")))))


@contract("C19", variants=[dict(minim=m) for m in MINIM[:2]])
def final_configuration(g, minim):
    na = atoms(g)
    lines, val = final_config(g, minim, na)
    return parsed(g, lines, g.D(g.kv("geom_opt", g.D(g.kv("final_configuration", val)))))


@contract("C19", variants=[dict(parts=p) for p in ("enthalpy", "tables", "positions", "forces", "all")], round=8)
def geometry_steps(g, parts):
    """The first step is what came before the first iteration; every iteration follows in order."""
    n, na = g.count("steps", lo=1), g.count("na")
    minim = "LBFGS"
    if parts in ("positions", "forces", "all"):
        g.distinct(na, lambda a: key(g, SPEC, -1, a))
        g.each(n, lambda s: g.distinct(na, lambda a: key(g, SPEC, s, a)))

    def step(i, *s):
        lines, vals, mins = [], [], []
        if i and parts in ("tables", "all"):
            ls, v = min_table(g, minim, 2, *s)
            lines += [*ls, g.line()]
            mins.append(v)
        if i:
            lines += [g.line("-" * 80), g.line(f" {minim}: starting iteration ", g.sp, g.fld(INT, "it", *s), " with trial guess (lambda= ", g.sp0, g.fld(FLT, "guess", *s), ")"),
                      g.line("-" * 80), g.line()]
            vals.append(g.kv("geom_opt", g.D(g.kv("trial", g.L(g.flt(g.fld(FLT, "guess", *s)))))))
        if i and parts in ("positions", "all"):
            ls, v = vec_table(g, POSHEAD, na, SPEC, "v", *s)
            lines += [*ls, g.line()]
            vals.append(g.kv("positions", v))
        if parts in ("forces", "all"):
            lines += [*force_head(g, " Forces "), force_rows(g, na, SPEC, "", *s), g.line(" *" + " " * 82 + "*"), g.line(STARS), g.line()]
            vals.append(g.kv("forces", g.D(g.kv("non_descript", g.L(force_value(g, na, SPEC, *s))))))
        lines += [g.line(f" {minim}: finished iteration ", g.sp, g.fld(INT, "it", *s), " with enthalpy= ", g.fld(EFLT, "H", *s), " eV"), g.line()]
        vals.append(g.kv("enthalpy", g.L(g.flt(g.fld(EFLT, "H", *s)))))
        if parts in ("tables", "all"):
            ls, v = conv_table(g, minim, *s)
            lines += [*ls, g.line()]
            mins.append(v)
        if mins:
            vals.append(g.kv("minimisation", g.L(*mins)))
        return lines, g.D(*vals)

    def iteration(s):
        return [g.line("=" * 80), g.line(f" Starting {minim} iteration ", g.sp, g.fld(INT, "it", s), " ..."), g.line("=" * 80), g.line(), *step(1, s)[0]]
    l0, v0 = step(0, -1)
    return parsed(g, [*l0, g.rep(n, iteration), g.line("=" * 80), g.line(f" Finished {minim}")],
                  g.D(g.kv("geom_opt", g.D(g.kv("iterations", g.L(v0, g.rep(n, lambda s: [step(1, s)[1]])))))))
