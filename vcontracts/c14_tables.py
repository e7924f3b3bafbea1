"""C14: tabular output files."""
from castep_outputs.parsers.efield_file_parser import parse_efield_file
from castep_outputs.parsers.hug_file_parser import parse_hug_file
from castep_outputs.parsers.parse_fmt_files import (parse_chdiff_fmt_file, parse_den_fmt_file, parse_elf_fmt_file,
                                                    parse_pot_fmt_file)
from castep_outputs.parsers.phonon_dos_file_parser import parse_phonon_dos_file
from castep_outputs.parsers.tddft_file_parser import parse_tddft_file
from castep_outputs.parsers.xrd_sf_file_parser import parse_xrd_sf_file
from pyvc.contract import Case, contract

from .common import *


@contract("C14", variants=[dict(tail=True), dict(tail=False)])
def hug(g, tail):
    n = g.count("n")
    cols = ("compression", "temperature", "pressure", "energy")

    def row(i):
        return [g.line(*spaced(g, [g.fld(FLTX, c, i) for c in cols]), "  <-- cTPE" if tail else "")]
    exp = g.D(*[g.kv(c, g.T(column(g, n, lambda i, c=c: g.flt(g.fld(FLTX, c, i))))) for c in cols])
    if not g.symbolic and n == 0:
        exp = {}
    if g.symbolic:
        g.assume(n.t > 0)
    return Case(parse_hug_file, [g.file(g.rep(n, row))], expect=exp)


@contract("C14", variants=[dict(cols=("F_PAW",)), dict(cols=("F_PAW", "F_pp")),
                           dict(cols=("F_PAW", "F_IAM", "F_PP", "F_core", "F_soft", "F_aug"))])
def xrd_sf(g, cols):
    n = g.count("n", lo=1)
    head = "   h   k   l" + "".join(f"   Re({c})   Im({c})" for c in cols)

    def row(i):
        fs = []
        for c in cols:
            fs += [g.fld(FLT, c + "re", i), g.fld(FLT, c + "im", i)]
        return [g.line(*flush(g, fields(g, SINT, "hkl", i)), *spaced(g, fs))]
    exp = [g.kv(c.lower(), g.L(column(g, n, lambda i, c=c: g.cplx(g.flt(g.fld(FLT, c + "re", i)),
                                                                  g.flt(g.fld(FLT, c + "im", i)))))) for c in cols]
    exp.append(g.kv("qvec", g.L(column(g, n, lambda i: g.T(*[g.int(x) for x in fields(g, SINT, "hkl", i)])))))
    return Case(parse_xrd_sf_file, [g.file(g.line(head), g.rep(n, row))], expect=g.D(*exp))


VOIGT = ("xx", "yy", "zz", "yz", "xz", "xy")


def efield_head(g):
    ni, nf, na = g.count("ni"), g.count("nf"), g.count("na", lo=1)
    q = g.fld(FLT, "oscq")
    cl, cv = cell_rows(g)
    al, av = frac_coords(g, na)
    head = [g.line(" BEGIN header"), g.line("  Number of ions", g.sp, g.num(ni)),
            g.line("  Number of branches", g.sp, g.fld(INT, "nbr")),
            g.line("  Number of frequencies", g.sp, g.num(nf)),
            g.line("  Oscillator Q", g.sp, q), g.line(" Unit cell vectors (A)"), *cl,
            g.line(" Fractional Co-ordinates"), al, g.line(" END header")]
    exp = [g.kv("ions", ni), g.kv("branches", g.trunc(g.flt(g.fld(INT, "nbr")))), g.kv("frequencies", nf),
           g.kv("Oscillator Q", g.T(g.flt(q))), g.kv("unit_cell", cv), g.kv("coords", av)]
    return head, exp


@contract("C14", variants=[dict(nt=1), dict(nt=2)])
def efield(g, nt):
    """nt tables of each kind"""
    head, exp = efield_head(g)
    no, np = [g.count("no", t, lo=2) for t in range(nt)], [g.count("np", t, lo=2) for t in range(nt)]

    def osc(t):
        return g.rep(no[t], lambda i: [g.line(g.sp0, g.fld(INT, "of", t, i), *spaced(g, fields(g, FLT, "o", t, i, n=6)))])

    def perm(t):
        return g.rep(np[t], lambda i: [g.line(g.sp, g.fld(FLT, "pf", t, i), *spaced(g, fields(g, FLT, "p", t, i, n=6)))])

    def full(less):
        def table(n, t, f, v, typ):
            n = g.add(n, -less)
            return g.D(g.kv("freq", g.T(column(g, n, lambda i: g.flt(g.fld(typ, f, t, i))))),
                       *[g.kv(c, g.T(column(g, n, lambda i, r=r: g.flt(g.fld(FLT, v, t, i, r))))) for r, c in enumerate(VOIGT)])
        return g.D(*exp, g.kv("oscillator_strengths", g.L(*[table(no[t], t, "of", "o", INT) for t in range(nt)])),
                   g.kv("permittivity", g.L(*[table(np[t], t, "pf", "p", FLT) for t in range(nt)])))
    ls = list(head)
    for t in range(nt):
        ls += [g.line(" BEGIN Oscillator Strengths   Freq (cm-1)   S xx yy zz yz zx xy ((D/A)**2/amu)"), osc(t),
               g.line(" END Oscillator Strengths")]
    for t in range(nt):
        ls += [g.line(" BEGIN permittivity   Freq (cm-1)    e_r  xx yy zz yz zx xy"), perm(t), g.line(" END permittivity")]
    f = g.file(*ls)
    return Case(parse_efield_file, [f], expect=full(0), known=[("C14-last-row", full(1))])


@contract("C14", variants=[dict(which="den"), dict(which="pot"), dict(which="chdiff"), dict(which="elf1"),
                           dict(which="elf2")])
def fmt(g, which):
    parse, cols, unit = {
        "den": (parse_den_fmt_file, ("charge",), " in units of electrons/grid_point * number of grid_points"),
        "pot": (parse_pot_fmt_file, ("pot",), " in units of Hartrees"),
        "chdiff": (parse_chdiff_fmt_file, ("charge",), " in units of electrons/grid_point * number of grid_points"),
        "elf1": (parse_elf_fmt_file, ("chi",), ""),
        "elf2": (parse_elf_fmt_file, ("chi_alpha", "chi_beta"), "")}[which]
    n = g.count("n", lo=1)
    cl, _ = cell_rows(g)
    head = [g.line(" BEGIN header"), "\n",
            g.line("           Real Lattice(A)               Lattice parameters(A)    Cell Angles"), *cl, "\n",
            g.line("   ", g.fld(INT, "nspins"), "                            ! nspins"),
            g.line(*flush(g, fields(g, INT, "grid")), "                ! fine FFT grid along <a,b,c>"),
            g.line(f" END header: data is \"<a b c> {' '.join(cols)}\"{unit}"), "\n"]

    def row(i):
        return [g.line(*flush(g, fields(g, INT, "abc", i)), *spaced(g, [g.fld(FLTX, c, i) for c in cols]))]
    exp = g.D(g.kv("q", g.L(column(g, n, lambda i: g.T(*[g.int(x) for x in fields(g, INT, "abc", i)])))),
              *[g.kv(c, g.L(column(g, n, lambda i, c=c: g.flt(g.fld(FLTX, c, i))))) for c in cols])
    return Case(parse, [g.file(*head, g.rep(n, row))], expect=exp)


@contract("C14", variants=[dict(ns=1), dict(ns=3)])
def phonon_dos(g, ns):
    ni, na, nq, nr = g.count("ni"), g.count("na", lo=1), g.count("nq", lo=1), g.count("nr", lo=2)
    nb = g.count("nb", lo=1)
    cl, cv = cell_rows(g)
    al, av = frac_coords(g, na)
    head = [g.line(" BEGIN header"), g.line("  Number of ions", g.sp, g.num(ni)),
            g.line("  Number of species", g.sp, str(ns)), g.line("  Number of branches", g.sp, g.num(nb)),
            g.line("  Number of bins in DOS", g.sp, g.fld(INT, "bins")), g.line(" Unit cell vectors (A)"), *cl,
            g.line(" Fractional Co-ordinates"), al, g.line(" END header")]

    def q(i):
        return [g.line("     q-pt=", g.sp, g.fld(INT, "iq", i), *spaced(g, fields(g, FLT, "q", i)), g.sp,
                       g.fld(FLT, "pth", i)),
                g.rep(nb, lambda m: [g.line(g.sp, g.fld(INT, "n", i, m), g.sp, g.fld(FLT, "f", i, m), g.sp,
                                            g.fld(FLT, "grad", i, m))])]

    def qe(i):
        return [g.D(g.kv("qpt", g.T(*[g.flt(x) for x in fields(g, FLT, "q", i)])),
                    g.kv("pth", g.T(g.flt(g.fld(FLT, "pth", i)))),
                    g.kv("n", g.T(column(g, nb, lambda m: g.int(g.fld(INT, "n", i, m))))),
                    g.kv("f", g.T(column(g, nb, lambda m: g.flt(g.fld(FLT, "f", i, m))))),
                    g.kv("Grad_qf", g.T(column(g, nb, lambda m: g.flt(g.fld(FLT, "grad", i, m))))))]
    spec = ["Si", "O", "Fe"][:ns]
    heads = ["freq", "g", *spec]

    def row(i):
        return [g.line(*spaced(g, [g.fld(FLT, "d" + h, i) for h in heads]))]

    def full(less):
        dos = g.D(*[g.kv(h, g.T(column(g, g.add(nr, -less), lambda i, h=h: g.flt(g.fld(FLT, "d" + h, i)))))
                    for h in heads])
        return g.D(g.kv("ions", ni), g.kv("species", ns), g.kv("branches", nb),
                   g.kv("bins in DOS", g.trunc(g.flt(g.fld(INT, "bins")))), g.kv("unit_cell", cv),
                   g.kv("coords", av), g.kv("", g.T()), g.kv("gradients", g.L(g.rep(nq, qe))), g.kv("dos", g.L(dos)))
    f = g.file(*head, g.line(" BEGIN GRADIENTS   n   f   |Grad_q f|"), g.rep(nq, q), g.line(" END GRADIENTS"),
               g.line(" BEGIN DOS   Freq (cm-1)  g(f)   ", "   ".join(spec)), g.rep(nr, row), g.line("  END DOS"))
    return Case(parse_phonon_dos_file, [f], expect=full(0), known=[("C14-last-row", full(1))])


@contract("C14", variants=[dict(conv=("Yes",)), dict(conv=("No",)), dict(conv=("No", "Yes"))])
def tddft(g, conv):
    ns, nx, na = g.count("ns"), g.count("nx"), g.count("na")
    cl, cv = cell_rows(g)
    g.distinct(na, lambda a: g.T(g.fld(SPEC, "sp", a), g.int(g.fld(INT, "si", a))))
    head = [g.line("BEGIN header"), g.line(" CASTEP generated TDDFT output"), g.line(" Energies in eV"),
            g.line(" Unit cell vectors (A)"), *cl, g.line(" Fractional Co-ordinates"),
            g.rep(na, lambda a: [g.line(" ", g.fld(SPEC, "sp", a), g.sp, g.fld(INT, "si", a),
                                        *spaced(g, fields(g, FLT, "pos", a)))]),
            g.line("END header")]
    coords = g.D(g.rep(na, lambda a: [g.kv(g.T(g.fld(SPEC, "sp", a), g.int(g.fld(INT, "si", a))),
                                           g.T(*[g.flt(x) for x in fields(g, FLT, "pos", a)]))]))

    def nov(s):
        return g.count("nov", s)

    def occ(s, i):
        return g.T(g.int(g.fld(INT, "occ", s, i)), g.int(g.fld(INT, "unocc", s, i)))

    def state(s):
        return [g.rep(nov(s), lambda i: [g.line(g.sp0, g.fld(INT, "st", s), g.sp, g.fld(INT, "occ", s, i), " -->", g.sp,
                                                g.fld(INT, "unocc", s, i), g.sp, g.fld(FLT, "ov", s, i))]),
                g.line(" Total overlap for state", g.sp, g.fld(INT, "st", s), " = ", g.fld(FLT, "tot", s))]

    def state_e(s):
        return [g.D(g.rep(nov(s), lambda i: [g.kv(occ(s, i), g.flt(g.fld(FLT, "ov", s, i)))]),
                    g.kv("total", g.flt(g.fld(FLT, "tot", s))))]

    def distinct(s):
        g.distinct(nov(s), lambda i: occ(s, i))
    g.each(ns, distinct)
    f = g.file(*head, g.line("BEGIN Characterisation of states as Kohn-Sham bands"),
               g.line(" State      Occ.         Unocc.        Overlap"), g.rep(ns, state),
               g.line("END Characterisation of states as Kohn-Sham bands"),
               g.line("BEGIN TDDFT Spectroscopic Data"),
               g.line("   State      Energy    Characterisation  Converged     Dipoles"),
               g.rep(nx, lambda x: [g.line(g.sp0, g.fld(INT, "xs", x, c), g.sp, g.fld(FLT, "xe", x, c), g.sp,
                                           g.fld(WORD, "ch", x, c), g.sp, yes,
                                           *spaced(g, fields(g, FLT, "dip", x, c, n=6))) for c, yes in enumerate(conv)]),
               g.line("END TDDFT Spectroscopic Data"))
    spec = g.rep(nx, lambda x: [g.D(g.kv("energy", g.flt(g.fld(FLT, "xe", x, c))),
                                    g.kv("characterisation", g.fld(WORD, "ch", x, c)), g.kv("converged", yes == "Yes"),
                                    g.kv("dipoles", g.L(*[g.cplx(g.flt(g.fld(FLT, "dip", x, c, r)),
                                                                 g.flt(g.fld(FLT, "dip", x, c, r + 1)))
                                                          for r in (0, 2, 4)]))) for c, yes in enumerate(conv)])
    return Case(parse_tddft_file, [f], expect=g.D(
        g.kv("unit_cell", cv), g.kv("coords", coords), g.kv("overlap", g.L(g.rep(ns, state_e))),
        g.kv("spectroscopic_data", g.L(spec))))
