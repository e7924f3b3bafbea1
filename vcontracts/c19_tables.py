"""C19, continued: sections of the main output file about the run, the species, symmetry and responses."""
from castep_outputs.parsers.castep_file_parser import Filters, parse_castep_file
from pyvc.contract import Case, contract

from .c19_sections import NAMES, Part, atoms, key, parsed
from .common import *

FILENAME = Lex("FILENAME", r"[A-Za-z][A-Za-z0-9_.-]*", lambda r: r.choice(["BN.check", "N2-base.check", "my_pot.usp", "a"]))
XROW = "        " + "x" * 68


def number_line(g, text, lex, name, *idx, unit=""):
    return g.line(text, g.sp, g.fld(lex, name, *idx), unit)


# ------------------------------------------------------------------------------------------------ the run
@contract("C19")
def final_printout(g):
    rows = [("Initialisation time =", "initialisation_time", " s"), ("Calculation time    =", "calculation_time", " s"),
            ("Finalisation time   =", "finalisation_time", " s"), ("Total time          =", "total_time", " s"), ("Peak Memory Use     =", "peak_memory_use", " kB")]
    lines = [number_line(g, t, UFLT, k, unit=u) for t, k, u in rows]
    return parsed(g, [*lines, g.line(), g.line("Overall parallel efficiency rating: Satisfactory (", g.fld(INT, "eff"), "%)")],
                  g.D(*[g.kv(k, g.flt(g.fld(UFLT, k))) for _, k, _ in rows], g.kv("parallel_efficiency", g.flt(g.fld(INT, "eff")))))


@contract("C19")
def continuation(g):
    return parsed(g, [g.line("Reading continuation data from model file ", g.fld(FILENAME, "file"))], g.D(g.kv("continuation", g.fld(FILENAME, "file"))))


MEMROWS = ["Baseline code static data and system overhead", "BLAS internal memory storage", "Model and support data",
           "Electronic energy minimisation requirements", "Force calculation requirements"]


@contract("C19", variants=[dict(n=n) for n in range(len(MEMROWS) + 1)])
def memory_estimates(g, n):
    m = g.count("estimates", lo=1)

    def est(e):
        return [g.line("        +---------------- MEMORY AND SCRATCH DISK ESTIMATES PER PROCESS --------------+"),
                g.line("        |                                                     Memory          Disk    |"),
                *[g.line(f"        | {t:<48}", g.sp, g.fld(UFLT, "mem", e, i), " MB", g.sp, g.fld(UFLT, "disk", e, i), " MB |") for i, t in enumerate(MEMROWS[:n])],
                g.line("        |                                               ----------------------------- |"),
                g.line("        | Requirements will fluctuate during execution and may exceed these estimates |"),
                g.line("        +-----------------------------------------------------------------------------+"), g.line()]

    def val(e):
        return [g.D(*[g.kv(t.lower().replace(" ", "_"), g.D(g.kv("memory", g.flt(g.fld(UFLT, "mem", e, i))), g.kv("disk", g.flt(g.fld(UFLT, "disk", e, i)))))
                      for i, t in enumerate(MEMROWS[:n])])]
    return parsed(g, [g.rep(m, est)], g.D(g.kv("memory_estimate", g.L(g.rep(m, val)))))


@contract("C19", variants=[dict(n=n) for n in (1, 2, 3)])
def boxed_warning(g, n):
    edge = "?" * 71
    lines = [g.line(edge), *[g.line("    ", g.sp0, g.fld(SENTENCE, "text", i)) for i in range(n)], g.line(edge)]
    return parsed(g, lines, g.D(g.kv("warning", g.L(g.cat(*[p for i in range(n) for p in ([" "] if i else []) + [g.fld(SENTENCE, "text", i)]])))))


SENTENCE = Lex("SENTENCE", r"[A-Za-z]([A-Za-z ,.0-9]*[A-Za-z.])?", lambda r: r.choice(["Warning in x", "Failed to identify 3 modes.", "ok"]))


@contract("C19", variants=[dict(kind=k) for k in ("text", "int", "float", "unit", "state")])
def options(g, kind):
    """A group's parameters, each with its value."""
    n = 2
    lex = dict(text=FILENAME, int=INT, float=FLT, unit=FLT, state=FILENAME)[kind]
    keys = ["max. length of mixing history", "density-mixing scheme", "spin moment in channel 1"][:n]
    unit = " eV" if kind == "unit" else " (1)" if kind == "state" else ""

    def val(i, j):
        f = g.fld(lex, "v", i, j)
        return (f if kind == "text" else g.cat(f, " (1)") if kind == "state" else g.int(f) if kind == "int" else g.T(g.flt(f), "eV") if kind == "unit" else g.flt(f))
    groups = [("General Parameters", "general"), ("Density Mixing Parameters", "density mixing"), ("Constrained DFT - deltaSCF", "constrained dft - deltascf")]
    lines = []
    for i, (t, _) in enumerate(groups):
        lines += [g.line(f" {' ' + t + ' ':*^79}"), g.line(), *[g.line(f" {k:<47}:", g.sp, g.fld(lex, "v", i, j), unit) for j, k in enumerate(keys)], g.line()]
    lines.append(g.line(" " + "*" * 79))
    return parsed(g, lines, g.D(g.kv("options", g.D(*[g.kv(k, g.D(*[g.kv(kk, val(i, j)) for j, kk in enumerate(keys)])) for i, (_, k) in enumerate(groups)]))))


@contract("C19", variants=[dict(n=n) for n in (1, 2)])
def output_units(g, n):
    qs = ["length", "energy"][:n]
    lines = [g.line(" ***************************** General Parameters ******************************"), g.line(),
             *[g.line(f" output         {q} unit                     : ", g.fld(UNITNAME, "u", i)) for i, q in enumerate(qs)],
             g.line(" write checkpoint data to                       : ", g.fld(FILENAME, "file")), g.line(), g.line(" " + "*" * 79)]
    return parsed(g, lines, g.D(g.kv("options", g.D(g.kv("output_units", g.D(*[g.kv(q, g.fld(UNITNAME, "u", i)) for i, q in enumerate(qs)])),
                                                    g.kv("general", g.D(g.kv("write checkpoint data to", g.fld(FILENAME, "file"))))))))


UNITNAME = Lex("UNITNAME", r"[A-Za-z]+(/[A-Za-z]+)?", lambda r: r.choice(["A", "eV", "eV/A", "ps"]))


# ------------------------------------------------------------------------------------------------ the cell and species
@contract("C19")
def supercell(g):
    m = [[g.fld(SINT, "m", i, j) for j in range(3)] for i in range(3)]
    return parsed(g, [g.line("    Supercell generated using matrix  [", *[p for i in range(3) for j in range(3) for p in ([",", ";"][j == 0] + " " * (j == 0) if i + j else "", m[i][j])], "]")],
                  g.D(g.kv("supercell", g.T(*[g.T(*[g.flt(x) for x in r]) for r in m]))))


@contract("C19")
def applied_field(g):
    p, v = vec(g, FLT, "E")
    return parsed(g, [g.line("                          Applied Electric Field (eV/A/e)"), g.line(*p)], g.D(g.kv("applied_field", v)))


@contract("C19")
def quantisation_axis(g):
    p, v = vec(g, FLT, "q")
    return parsed(g, [g.line("         Quantisation axis:", *p)], g.D(g.kv("quantisation_axis", v)))


@contract("C19")
def basis_derivative(g):
    return parsed(g, [g.line(" For future reference: finite basis dEtot/dlog(Ecut) =   ", g.sp, g.fld(FLT, "d"), "eV")], g.D(g.kv("dedlne", g.flt(g.fld(FLT, "d")))))


@contract("C19", variants=[dict(lex=x) for x in ("plain", "tag")])
def species(g, lex):
    """Mass, quadrupole moment and pseudopotential file of every species."""
    n, lx = g.count("n", lo=1), NAMES[lex]
    g.distinct(n, lambda s: g.fld(lx, "spec", s))
    lines = [g.line("                               Mass of species in AMU"),
             g.rep(n, lambda s: [g.line("                                    ", g.fld(lx, "spec", s), g.sp, g.fld(UFLT, "mass", s))]), g.line(),
             g.line("                          Electric Quadrupole Moment (Barn)"),
             g.rep(n, lambda s: [g.line("                                    ", g.fld(lx, "spec", s), g.sp, g.fld(FLT, "eqm", s), " No Isotope Defined")]), g.line(),
             g.line("                                  Files used for pseudopotentials:"),
             g.rep(n, lambda s: [g.line("                                    ", g.fld(lx, "spec", s), g.sp, g.fld(FILENAME, "pot", s))]), g.line()]
    return parsed(g, lines, g.D(g.kv("species_properties", g.D(g.rep(n, lambda s: [g.kv(g.fld(lx, "spec", s), g.D(
        g.kv("mass", g.flt(g.fld(UFLT, "mass", s))), g.kv("electric_quadrupole_moment", g.flt(g.fld(FLT, "eqm", s))), g.kv("pseudopot", g.fld(FILENAME, "pot", s))))])))))


@contract("C19", variants=[dict(spill=s) for s in (0, 1, 2)])
def pseudo_atoms(g, spill):
    n = g.count("n", lo=1)
    g.distinct(n, lambda s: g.fld(SPEC, "spec", s))

    def atom(s):
        return [g.line(" Pseudo atomic calculation performed for ", g.fld(SPEC, "spec", s), " 3d6 4s2"), g.line(),
                g.line(" Converged in ", g.fld(INT, "it", s), " iterations to a total energy of ", g.fld(FLT, "E", s), " eV"),
                *[g.line(f"Charge spilling parameter for spin component {i + 1} = ", g.fld(UFLT, "sp", s, i), "%") for i in range(spill)], g.line(), g.line()]

    def val(s):
        return [g.kv(g.fld(SPEC, "spec", s), g.D(g.kv("pseudo_atomic_energy", g.flt(g.fld(FLT, "E", s))),
                                                 *([g.kv("charge_spilling", g.T(*[g.mul(0.01, g.flt(g.fld(UFLT, "sp", s, i))) for i in range(spill)]))] if spill else [])))]
    return parsed(g, [g.rep(n, atom)], g.D(g.kv("species_properties", g.D(g.rep(n, val)))))


@contract("C19")
def pseudopotential_debug(g):
    n = g.count("n", lo=1)
    kind = Lex("AEPS", r"AE|PS", lambda r: r.choice(["AE", "PS"]))
    lines = [g.line(" ---------------------------------------"),
             g.rep(n, lambda i: [g.line(" ", g.fld(kind, "k", i), " eigenvalue nl ", g.fld(INT, "nl", i), " = ", g.fld(FLT, "e", i))])]
    return parsed(g, lines, g.D(g.kv("pspot_debug", g.L(g.rep(n, lambda i: [g.D(
        g.kv("type", g.fld(kind, "k", i)), g.kv("nl", g.int(g.fld(INT, "nl", i))), g.kv("eigenvalue", g.flt(g.fld(FLT, "e", i))))])))))


MIX = [Lex(f"MIX{i}", f"[{c}][a-z]?", lambda r, c=c: r.choice([c[0], c[2] + "e"])) for i, c in enumerate(("A-H", "I-R", "S-Z"))]


@contract("C19", variants=[dict(comp=c) for c in (1, 2, 3)])
def mixtures(g, comp):
    """Every component of a mixed site has the site's position and its own weight."""
    n = g.count("sites", lo=1)
    g.distinct(n, lambda s: g.int(g.fld(INT, "idx", s)))
    def site(s):
        return [g.line("        x ", g.sp, g.fld(INT, "idx", s), " ", *spaced(g, fields(g, FLT, "pos", s)), g.sp, g.fld(MIX[0], "spec", s, 0), " ", g.sp, g.fld(UFLT, "w", s, 0), "  x"),
                *[g.line("        x ", g.sp, g.fld(MIX[c], "spec", s, c), " ", g.sp, g.fld(UFLT, "w", s, c), "  x") for c in range(1, comp)]]

    def val(s):
        return [g.kv(g.T(g.fld(MIX[c], "spec", s, c), g.int(g.fld(INT, "idx", s))),
                     g.D(g.kv("pos", g.T(*[g.flt(g.fld(FLT, "pos", s, r)) for r in range(3)])), g.kv("weight", g.flt(g.fld(UFLT, "w", s, c))))) for c in range(comp)]
    lines = [g.line(XROW), g.line("        x  Mixture   Fractional coordinates of atoms  Components  Weights  x"), g.line("        x   atoms       u          v          w                            x"),
             g.line("        x------------------------------------------------------------------x"), g.rep(n, site), g.line(XROW)]
    return parsed(g, lines, g.D(g.kv("initial_positions", g.D(g.rep(n, val)))))


@contract("C19", variants=[dict(species=s) for s in (False, True)])
def dispersion(g, species):
    n = g.count("n", lo=1)
    g.distinct(n, lambda s: g.fld(SPEC, "spec", s))
    pars = ["s6", "d"]
    lines = [g.line("                                --------------------"), g.line("                                  DFT-D parameters"), g.line("                                --------------------"), g.line(),
             g.line("                          Dispersion-correction scheme : ", g.fld(SCHEME, "scheme")),
             *[g.line(f"                        Parameter {p:<2} :", g.sp, g.fld(FLT, "p" + p), " (default)") for p in pars], g.line()]
    if species:
        lines += [g.line(XROW), g.line("        x              Atomic DFT-D parameters                             x"), g.line("        x  Species      C6            R0                                   x"),
                  g.line("        x               eV A^6        Ang                                  x"), g.line("        x------------------------------------------------------------------x"),
                  g.rep(n, lambda s: [g.line("        x  ", g.fld(SPEC, "spec", s), g.sp, g.fld(FLT, "c6", s), g.sp, g.fld(FLT, "r0", s), "   (default)                   x")]), g.line(XROW)]
    lines.append(g.line())
    return parsed(g, lines, g.D(g.kv("dftd", g.D(
        g.kv("dispersion_correction_scheme", g.fld(SCHEME, "scheme")), *[g.kv("parameter_" + p, g.flt(g.fld(FLT, "p" + p))) for p in pars],
        g.kv("species", g.D(g.rep(n, lambda s: [g.kv(g.fld(SPEC, "spec", s), g.D(g.kv("c6", g.flt(g.fld(FLT, "c6", s))), g.kv("r0", g.flt(g.fld(FLT, "r0", s)))))]) if species else []))))))


SCHEME = Lex("SCHEME", r"[A-Z][A-Z0-9]*", lambda r: r.choice(["G06", "XDM", "TS", "MBD"]))


@contract("C19")
def removed_force(g):
    n = g.count("n", lo=1)
    return parsed(g, [g.rep(n, lambda i: [g.line("firstd_calculate: removing force on centre of mass"),
                                          *[g.line(f" dF{x}: ", g.sp, g.fld(EFLT, "f", i, r), " eV/A") for r, x in enumerate("xyz")], g.line()])],
                  g.D(g.kv("forces", g.D(g.kv("com_force_removal", g.L(g.rep(n, lambda i: [g.T(*[g.flt(g.fld(EFLT, "f", i, r)) for r in range(3)])])))))))


# ------------------------------------------------------------------------------------------------ symmetry
GROUP = Lex("GROUP", r"[A-Z0-9][a-z0-9/_-]*", lambda r: r.choice(["C1", "1", "P4_132", "D2h", "mmm"]))
HALL = Lex("HALL", r"-?[0-9a-z]+", lambda r: r.choice(["1", "4bd", "2ab", "-3"]))


@contract("C19", variants=[dict(ops=o, primitives=p, com=c) for o in (False, True) for p, c in ((False, True), (True, False))])
def symmetry(g, ops, primitives, com):
    m, na = g.count("ops", lo=1), g.count("na", lo=1)
    lines, sym, con = [], [], []
    if primitives:
        lines.append(g.line("                      Cell is a supercell containing ", g.fld(INT, "np"), " primitive cells"))
        sym.append(g.kv("n_primitives", g.int(g.fld(INT, "np"))))
    lines += [number_line(g, "                      Maximum deviation from symmetry = ", UFLT, "dev", unit="         ANG"), g.line(),
              number_line(g, "                      Number of symmetry operations   = ", INT, "nops"), number_line(g, "                      Number of ionic constraints     = ", INT, "nion"),
              g.line("                      Point group of crystal = ", g.sp, g.fld(INT, "pg"), ": ", g.fld(GROUP, "pg1"), ", ", g.fld(GROUP, "pg2"), ", ", g.fld(GROUP, "pg3")),
              g.line("                      Space group of crystal = ", g.sp, g.fld(INT, "sg"), ": ", g.fld(GROUP, "sg1"), ", P ", g.fld(HALL, "sg2"), " ", g.fld(HALL, "sg3")), g.line()]
    sym += [g.kv("max_deviation", g.flt(g.fld(UFLT, "dev"))), g.kv("num_symmetry_operations", g.int(g.fld(INT, "nops"))),
            g.kv("point_group", g.D(g.kv("id", g.int(g.fld(INT, "pg"))), g.kv("schoenflies", g.fld(GROUP, "pg1")), g.kv("hermann_mauguin", g.fld(GROUP, "pg2")), g.kv("hermann_mauguin_full", g.fld(GROUP, "pg3")))),
            g.kv("space_group", g.D(g.kv("id", g.int(g.fld(INT, "sg"))), g.kv("international", g.fld(GROUP, "sg1")), g.kv("hall", g.cat("P ", g.fld(HALL, "sg2"), " ", g.fld(HALL, "sg3")))))]
    con.append(g.kv("num_ionic_constraints", g.int(g.fld(INT, "nion"))))

    def op(o):
        return [g.line("                 ", g.sp, g.fld(INT, "op", o), " rotation"),
                *[g.line("                 ( ", *spaced(g, fields(g, FLT, "rot", o, r)), " )") for r in range(3)],
                g.line("                 ", g.sp, g.fld(INT, "op", o), " displacement"), g.line("                 ( ", *spaced(g, fields(g, FLT, "disp", o)), " )"),
                g.line("                      symmetry related atoms:"),
                g.rep(na, lambda a: [g.line("             ", g.fld(SPEC, "spec", o, a), ":", g.sp, g.fld(INT, "at", o, a))]), g.line()]

    def opval(o):
        return [g.D(g.kv("rotation", g.L(*[g.T(*[g.flt(x) for x in fields(g, FLT, "rot", o, r)]) for r in range(3)])),
                    g.kv("symmetry_related", g.L(g.rep(na, lambda a: [g.T(g.fld(SPEC, "spec", o, a), g.int(g.fld(INT, "at", o, a)))]))),
                    g.kv("displacement", g.T(*[g.flt(x) for x in fields(g, FLT, "disp", o)])))]
    if ops:
        lines.append(g.rep(m, op))
        sym.append(g.kv("symop", g.L(g.rep(m, opval))))
    lines += [g.line("                         Centre of mass is " + ("" if com else "NOT ") + "constrained"), g.line(), number_line(g, "                         Number of cell constraints=", INT, "ncell"),
              g.line("                         Cell constraints are: ", *spaced(g, fields(g, INT, "cc", n=6))), g.line()]
    con += [g.kv("com_constrained", com), g.kv("num_cell_constraints", g.int(g.fld(INT, "ncell"))), g.kv("cell_constraints", g.T(*[g.int(f) for f in fields(g, INT, "cc", n=6)]))]
    head = [g.line("                           -------------------------------"), g.line("                               Symmetry and Constraints"), g.line("                           -------------------------------"), g.line()]
    return parsed(g, [*head, *lines], g.D(g.kv("symmetries", g.D(*sym)), g.kv("constraints", g.D(*con))))


@contract("C19", mode="bounded", samples=400)
def ionic_constraints(g):
    n = g.count("na", lo=1)
    g.distinct(n, lambda a: key(g, SPEC, a))
    lines = [g.line("                           -------------------------------"), g.line("                               Symmetry and Constraints"), g.line("                           -------------------------------"), g.line(),
             g.line("            xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx...."), g.line("            x  Species       atom   co-ordinate  constraints....."),
             g.line("            x-------------------------------------------------------------....")]
    rows = g.rep(n, lambda a: [g.line("            x ", g.fld(SPEC, "spec", a), g.sp, g.fld(INT, "ind", a), f"       {x} ", *spaced(g, fields(g, FLT, "c", a, i))) for i, x in enumerate("xyz")])
    return parsed(g, [*lines, rows, g.line("            xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx...."), g.line(),
                      g.line("                         Cell constraints are: ", *spaced(g, fields(g, INT, "cc", n=6))), g.line()],
                  g.D(g.kv("symmetries", g.D()), g.kv("constraints", g.D(
                      g.kv("ionic_constraints", g.D(g.rep(n, lambda a: [g.kv(key(g, SPEC, a), g.L(*[g.T(*[g.flt(f) for f in fields(g, FLT, "c", a, i)]) for i in range(3)]))]))),
                      g.kv("cell_constraints", g.T(*[g.int(f) for f in fields(g, INT, "cc", n=6)]))))))


# ------------------------------------------------------------------------------------------------ responses
@contract("C19")
def dipole(g):
    def b(text, *fs):
        return g.line("  +" + text, *fs, "       +")
    e = "  " + "=" * 69
    pe, ve = vec(g, FLT, "ce")
    pi, vi = vec(g, FLT, "ci")
    pd, vd = vec(g, FLT, "dir")
    lines = [g.line(e), b(" " * 60), b("   D I P O L E   O F   M O L E C U L E   I N   S U P E R C E L L   "), b("      Cite: S. J. Clark, et al. Europhys Lett 44, 578 (1998)"), b(" "),
             b("      WARNING: This is only correct for isolated molecules         "), b(" "),
             b("    Total  ionic  charge in supercell:", g.sp, g.fld(FLT, "qi"), " electrons"), b("    Total valence charge in supercell:", g.sp, g.fld(FLT, "qv"), " electrons"), b(" "),
             b("   Centre of electronic charge for system:"), b("  ", *pe, " ANG"), b("   Centre of positive ionic charges:"), b("  ", *pi, " ANG"), b(" "),
             b("  Magnitude of Dipole =", g.sp, g.fld(FLT, "mag"), "  DEBYE"), b("  Direction of Dipole =", *pd), b(" "), g.line(e)]
    return parsed(g, lines, g.D(g.kv("molecular_dipole", g.D(
        g.kv("total_ionic", g.flt(g.fld(FLT, "qi"))), g.kv("total_valence", g.flt(g.fld(FLT, "qv"))), g.kv("centre_electronic", ve), g.kv("centre_positive", vi),
        g.kv("dipole_magnitude", g.flt(g.fld(FLT, "mag"))), g.kv("dipole_direction", vd)))))


@contract("C19")
def solvation_results(g):
    rows = [(" Total energy in solvent          = ", "total_energy_in_solvent", ""), (" -Total energy in vacuum          = ", "total_energy_in_vacuum", ""),
            (" Free energy of solvation         = ", "free_energy_of_solvation", ""), ("  (Apolar cavitation energy       = ", "apolar_cavitation_energy", ")"),
            ("  (Total polar solvation energy   = ", "total_polar_solvation_energy", ")")]
    lines = [g.line(" ********************** AUTOSOLVATION CALCULATION RESULTS **********************"), g.line(" Calculation succeeded:"),
             *[number_line(g, t, FLT, k, unit=" eV" + u) for t, k, u in rows], g.line(" " + "*" * 79)]
    return parsed(g, lines, g.D(g.kv("autosolvation", g.D(*[g.kv(k, g.flt(g.fld(FLT, k))) for _, k, _ in rows]))))


@contract("C19")
def elastic_properties(g):
    bar = " " + "-" * 79
    three = [("  Young's Modulus ::", "young_s_modulus", 3, "     (GPa)"), ("  Poisson Ratios  ::", "poisson_ratios", 6, ""), ("   Bulk Modulus   ::", "bulk_modulus", 3, "     (GPa)"),
             ("  Shear Modulus   ::", "shear_modulus", 3, "     (GPa)")]
    one = [("  Longitudinal waves ::", "longitudinal_waves"), ("   Transverse waves  ::", "transverse_waves")]
    lines = [g.line(" " + "=" * 79), g.line("                               Elastic Properties"), g.line(bar), g.line("                            x              y              z"), g.line(bar)]
    vals = []
    for t, k, n, u in three:
        p, v = vec(g, FLT, k, n=n)
        lines += [g.line(t, *p, u), g.line(), g.line(bar)]
        vals.append(g.kv(k, v))
    lines += [g.line("                                 Speed of Sound"), g.line(bar), g.line("                            x              y              z"), g.line(bar)]
    rows = []
    for r, x in enumerate("xyz"):
        p, v = vec(g, FLT, "sos", r)
        lines.append(g.line(f"  {'(Anisotropic)' if r == 1 else '':<13}   {x}", *p, "     (A/ps)"))
        rows.append(v)
    lines += [g.line(), g.line(" Assuming Isotropic material"), *[g.line(t, g.sp, g.fld(FLT, k), "   (A/ps)") for t, k in one], g.line(" " + "=" * 79)]
    return parsed(g, lines, g.D(g.kv("elastic", g.D(*vals, g.kv("speed_of_sound", g.T(*rows)), *[g.kv(k, g.flt(g.fld(FLT, k))) for _, k in one]))))


@contract("C19", variants=[dict(n=n, depol=d) for n in (0, 1) for d in (False, True)])
def raman(g, n, depol):
    """Every mode's tensor and its invariants."""
    m = g.count("modes", lo=n)

    def mode(i):
        return [g.line(" + Mode number: ", g.sp0, g.fld(INT, "n", i), " Raman tensor       Depolarisation Ratio                   +"),
                *[g.line(" + ", *spaced(g, fields(g, FLT, "t", i, r)), *((g.sp, g.fld(UFLT, "d", i)) if depol and r == 0 else ()), "             +") for r in range(3)],
                g.line(" +                                                                            +")]

    def val(i):
        t = [[g.flt(g.fld(FLT, "t", i, r, c)) for c in range(3)] for r in range(3)]
        return [g.D(g.kv("tensor", g.T(*[g.T(*r) for r in t])), g.kv("depolarisation", g.flt(g.fld(UFLT, "d", i)) if depol else None),
                    g.kv("trace", g.approx(g.add(g.add(t[0][0], t[1][1]), t[2][2]))),
                    g.kv("ii", g.approx(g.sub(g.sub(g.sub(g.add(g.add(g.mul(t[0][0], t[1][1]), g.mul(t[0][0], t[2][2])), g.mul(t[1][1], t[2][2])),
                                                 g.mul(t[0][1], t[1][0])), g.mul(t[0][2], t[2][0])), g.mul(t[1][2], t[2][1])))))]
    lines = [g.line(" " + "=" * 78), g.line(" +                      Raman Susceptibility Tensors ((A/amu)*0.5)            +"), g.line(" +" + "-" * 76 + "+"), g.rep(m, mode),
             g.line(" +" + "-" * 76 + "+"), g.line()]
    return parsed(g, lines, g.D(g.kv("raman", g.L(g.L(g.rep(m, val))))))


# ------------------------------------------------------------------------------------------------ other
@contract("C19")
def delocalised_internals(g):
    n = g.count("n", lo=1)
    g.distinct(n, lambda i: g.int(g.fld(INT, "c", i)))
    kinds = ["bonds", "angles", "dihedrals", "internals"]
    lines = [g.line("Message: Generating delocalized internals"), g.rep(n, lambda i: [g.line(" constraint # ", g.sp, g.fld(INT, "c", i), " is a primitive # ", g.sp, g.fld(INT, "p", i))]), g.line(),
             *[g.line(f"Total number of primitive {k}: ", g.sp, g.fld(INT, k)) for k in kinds], g.line(), g.line("Message: Generation of delocalized internals is successful"), g.line(),
             number_line(g, " The size of active space is : ", INT, "act"), g.line(" There are : ", g.sp, g.fld(INT, "dof"), "  degrees of freedom"),
             g.line(" There are : ", g.sp, g.fld(INT, "prim"), "  primitive internals"), g.line()]
    return parsed(g, lines, g.D(g.kv("delocalised_internal", g.D(
        g.kv("constraint_mapping", g.D(g.rep(n, lambda i: [g.kv(g.int(g.fld(INT, "c", i)), g.int(g.fld(INT, "p", i)))]))), *[g.kv("num_" + k, g.int(g.fld(INT, k))) for k in kinds],
        g.kv("active_space_size", g.int(g.fld(INT, "act"))), g.kv("num_dof", g.int(g.fld(INT, "dof"))), g.kv("num_primitive_internals", g.int(g.fld(INT, "prim")))))))


@contract("C19", variants=[dict(n=n) for n in (1, 2)])
def modos(g, n):
    """The states of a delta-SCF calculation, each with its population and file."""
    for i in range(n):
        for j in range(i):
            g.assume(g.not_(g.same(g.int(g.fld(INT, "band", i)), g.int(g.fld(INT, "band", j)))))
    st = range(n)
    lines = [g.line("               Calculating MODOS weights"), g.line(" +-------------------INPUT PARAMETERS-------------------+"), g.line("Taking band from model   ", g.fld(FILENAME, "file")),
             *[l for i in st for l in (g.line("  MODOS state             ", g.sp, g.fld(INT, "st", i)), g.line("  MODOS band  nr.         ", g.sp, g.fld(INT, "band", i)),
                                       g.line("  MODOS band has spin     ", g.sp, g.fld(INT, "spin", i)))],
             *[g.line("|DeltaSCF| Population of state: ", g.sp, g.fld(INT, "band", i), g.sp, g.fld(INT, "spin", i), g.sp, g.fld(UFLT, "pop", i)) for i in st],
             *[g.line(" Writing file   N2-modos.modos_state_", g.fld(INT, "band", i), "_", g.fld(INT, "spin", i)) for i in st], g.line()]
    return parsed(g, lines, g.D(g.kv("delta_scf", g.D(g.kv("file", g.fld(FILENAME, "file")), g.kv("states", g.L(*[
        g.D(g.kv("band", g.int(g.fld(INT, "band", i))), g.kv("spin", g.int(g.fld(INT, "spin", i))), g.kv("pop", g.flt(g.fld(UFLT, "pop", i))),
            g.kv("file", g.cat("N2-modos.modos_state_", g.fld(INT, "band", i), "_", g.fld(INT, "spin", i)))) for i in st]))))))


@contract("C19", variants=[dict(kind=k, sat=s) for k in ("Bond", "Angle", "Torsion") for s in (False, True)])
def internal_constraints(g, kind, sat):
    m, na = 2, dict(Bond=2, Angle=3, Torsion=4)[kind]
    for k in range(m):
        for i in range(na):
            for j in range(i):
                g.assume(g.not_(g.same(g.int(g.fld(INT, "at", k, i)), g.int(g.fld(INT, "at", k, j)))))

    def row(k):
        nums = [g.fld(UFLT, "cur", k), " Satisfied"] if sat else [g.fld(UFLT, "tgt", k), g.sp, g.fld(UFLT, "cur", k)]
        return g.line("  ", g.fld(INT, "no", k), f" {kind}", g.sp, *nums, *[p for i in range(na) for p in ("   ", g.fld(INT, "at", k, i), " (", *spaced(g, fields(g, SINT, "im", k, i)), ")")])

    def val(k):
        return g.D(g.kv("type", kind), g.kv("target", None if sat else g.flt(g.fld(UFLT, "tgt", k))), g.kv("current", g.flt(g.fld(UFLT, "cur", k))), g.kv("satisfied", sat),
                   g.kv("constraints", g.D(*[g.kv(g.int(g.fld(INT, "at", k, i)), g.T(*[g.int(f) for f in fields(g, SINT, "im", k, i)])) for i in range(na)])))
    return parsed(g, [g.line("  INTERNAL CONSTRAINTS"), g.line(" #  Type     Target    Actual           Definition"), g.line(), *[row(k) for k in range(m)], g.line()],
                  g.D(g.kv("internal_constraints", g.L(*[val(k) for k in range(m)]))))


def cartesian(g, unit, name=""):
    lines, vals = [], []
    for t, k in (("Ionic", "ionic"), ("Elec ", "elec"), ("Total", "total")):
        p, v = vec(g, FLT, name + k)
        lines.append(g.line(f" {t} Polarisation (Cartesian Basis):", *p, f" ({unit})"))
        vals.append(g.kv(k, g.D(g.kv("units", unit), g.kv("val", v))))
    return lines, vals


@contract("C19", variants=[dict(unit=u) for u in ("C/m^2", "e/Ang^2")])
def berry_phase(g, unit):
    """Of the two Cartesian tables the second is kept."""
    for i in range(3):
        for j in range(i):
            g.assume(g.not_(g.all_(*[g.same(g.flt(g.fld(FLT, "G", i, c)), g.flt(g.fld(FLT, "G", j, c))) for c in range(3)])))
    e = "=" * 85
    rows = [g.line(f" G_{i + 1}:  (", *spaced(g, fields(g, FLT, "G", i)), "   )", *[p for c in ("elec", "ionic", "total") for p in (g.sp, g.fld(FLT, c, i))], " (", g.sp, g.fld(FLT, "quantum", i), " )") for i in range(3)]
    c0, _ = cartesian(g, "e/bohr^2", "first")
    cl, cv = cartesian(g, unit, "cartesian ")
    lines = [g.line(e), g.line(f" Polarisation ({unit}) in Recip Lattice Basis defined on range [-Quantum/2:Quantum/2]"), g.line("              Direction                   Electronic   Ionic    Total    (Quantum)"),
             g.line(e), *rows, g.line(e), g.line(), g.line(e), *c0, g.line(e), g.line(), g.line(e), *cl, g.line(e), g.line()]
    return parsed(g, lines, g.D(g.kv("berry_phase", g.D(g.kv("polarisation", g.D(*[g.kv(g.T(*[g.flt(f) for f in fields(g, FLT, "G", i)]), g.D(
        *[g.kv(c, g.flt(g.fld(FLT, c, i))) for c in ("elec", "ionic", "total", "quantum")], g.kv("units", unit))) for i in range(3)])), *cv))))
