"""C18: a main output file's runs and filters do not influence one another.

The sections are those of C19; each stands here among others."""
from castep_outputs.parsers.castep_file_parser import Filters, parse_castep_file
from pyvc.contract import Case, contract

from . import c19_sections as c19
from . import c19_tables as tab
from .c19_sections import Part
from .common import *


TITLE = Lex("TITLE", r"[!-~]([ -~]*[!-~])?", lambda r: r.choice(["x", "Warning: not one", " -> <-- SCF", "  Final energy = 3", "Starting MD iteration", "MgO (2x2)"]).strip())

XROW = "            " + "x" * 60
PROSE = Lex("PROSE", r"[b-z][b-z ,]*[b-z.]", lambda r: r.choice(["this, then", "not.", "spin is zero."]).replace("a", "u"))


def title(g):
    """A title is free text, whatever it looks like."""
    return c19.parsed(g, [g.line("*" * 35 + " Title " + "*" * 35), g.line(g.sp0, g.fld(TITLE, "title")), g.line()],
                      g.D(g.kv("title", g.fld(TITLE, "title"))))


def warning(g, more):
    """A warning goes on over the lines indented further."""
    return c19.parsed(g, [g.line(" Warning: ", g.fld(PROSE, "warning")), *[g.line("      ", g.fld(PROSE, "more", i)) for i in range(more)], g.line()],
                      g.D(g.kv("warning", g.L(g.cat("Warning: ", g.fld(PROSE, "warning"), *[p for i in range(more) for p in (" ", g.fld(PROSE, "more", i))])))))


def trial_guess(g):
    return c19.parsed(g, [g.line("-" * 80), g.line(" LBFGS: starting iteration         1 with trial guess (lambda=  ", g.fld(FLT, "guess"), ")"), g.line("-" * 80), g.line()],
                      g.D(g.kv("geom_opt", g.D(g.kv("trial", g.L(g.flt(g.fld(FLT, "guess"))))))))


def end_points(g):
    """The end points of a transition state search."""
    def table(name):
        return [g.line(f"            x                     {name}                        x"), g.line(XROW), g.line("            x  Element    Atom        Fractional coordinates of atoms  x"),
                g.line("            x  ", g.fld(SPEC, name), "           1         ", *vec(g, FLT, "r", len(name))[0], "   x"), g.line(XROW)]
    return c19.parsed(g, [*table("Reactant"), g.line(), *table("Product")],
                      g.D(*[g.kv(n.lower(), g.D(g.kv(g.T(g.fld(SPEC, n), 1), vec(g, FLT, "r", len(n))[1]))) for n in ("Reactant", "Product")]))


# section -> (contract of C19, its variant, filters any of which selects it: "+" joins those needed together)
SECTIONS = {
    "forces": (c19.forces, dict(lex="plain", mark="(cons'd)", title=("Constrained ", "constrained")), "FORCE"),
    "cell": (c19.unit_cell, dict(density=2), "CELL"),
    "positions": (c19.vectors, dict(lex="plain", what="positions"), "POSITION"),
    "velocities": (c19.vectors, dict(lex="tag", what="velocities"), "POSITION"),
    "labelled": (c19.labelled_positions, dict(labelled=True), "POSITION"),
    "spins": (c19.initial_spins, dict(lex="label"), "PARAMETERS"),
    "stress": (c19.stress, dict(title=("Symmetrised ", "symmetrised")), "STRESS"),
    "mulliken": (c19.mulliken, dict(lex="plain", spin=2), "POPN_ANALYSIS"),
    "hirshfeld": (c19.hirshfeld, dict(lex="plain"), "POPN_ANALYSIS"),
    "born": (c19.born_charges, None, "POPN_ANALYSIS"),
    "bonds": (c19.bonds, None, "POPN_ANALYSIS"),
    "orbitals": (c19.orbital_populations, None, "POPN_ANALYSIS"),
    "thermodynamics": (c19.thermodynamics, None, "THERMODYNAMICS"),
    "displacements": (c19.displacements, None, "THERMODYNAMICS"),
    "dynamical matrix": (c19.dynamical_matrix, None, "PHONON"),
    "phonons": (c19.phonons, None, "PHONON"),
    "phonon symmetry": (c19.phonon_symmetry, None, "PHONON"),
    "band structure": (c19.band_structure, None, "BS"),
    "scf": (c19.scf, dict(extra="constraint"), "SCF"),
    "fixed scf": (c19.scf_fixed_occupancy, None, "SCF"),
    "line min": (c19.line_minimisation, None, "SCF"),
    "occupancies": (c19.occupancies, None, "SCF"),
    "spin density": (c19.spin_density, None, "SCF SPIN"),
    "k-points": (c19.kpoint_summary, dict(kind="mp+offset"), "PARAMETERS"),
    "target stress": (c19.target_stress, None, "PARAMETERS"),
    "permittivity": (c19.response_tensor, dict(what="permittivity", both=True), "OPTICS"),
    "polarisability": (c19.response_tensor, dict(what="polarisability", both=False), "OPTICS"),
    "nlo": (c19.six_columns, dict(what="nlo"), "OPTICS"),
    "elastic": (c19.six_columns, dict(what="elastic"), "ELASTIC"),
    "ewald": (c19.six_columns, dict(what="ewald"), "ELASTIC"),
    "magnetic": (c19.magnetic, None, "CHEM_SHIELDING"),
    "tddft": (c19.tddft, None, "TDDFT"),
    "elf": (c19.elf, None, "ELF"),
    "md": (c19.md_steps, dict(parts="positions"), "MD"),
    "minimisation": (c19.convergence_table, dict(minim="LBFGS"), "GEOM_OPT"),
    "final configuration": (c19.final_configuration, dict(minim="BFGS"), "FINAL_CONFIG GEOM_OPT"),
    "title": (title, dict(), "PARAMETERS"),
    "warning": (warning, dict(more=0), "SYS_INFO"),
    "long warning": (warning, dict(more=2), "SYS_INFO"),
    "trial guess": (trial_guess, dict(), "GEOM_OPT"),
    "memory": (tab.memory_estimates, dict(n=2), "SYS_INFO"),
    "final printout": (tab.final_printout, None, "SYS_INFO"),
    "continuation": (tab.continuation, None, "SYS_INFO"),
    "boxed warning": (tab.boxed_warning, dict(n=2), "SYS_INFO"),
    "options": (tab.options, dict(kind="unit"), "PARAMETERS"),
    "applied field": (tab.applied_field, None, "PARAMETERS"),
    "quantisation axis": (tab.quantisation_axis, None, "SPECIES_PROPS"),
    "species": (tab.species, dict(lex="tag"), "SPECIES_PROPS"),
    "pseudo atoms": (tab.pseudo_atoms, dict(spill=1), "SPECIES_PROPS"),
    "pseudopotential debug": (tab.pseudopotential_debug, None, "PSPOT"),
    "dispersion": (tab.dispersion, dict(species=True), "PARAMETERS"),
    "mixtures": (tab.mixtures, dict(comp=2), "POSITION"),
    "symmetry": (tab.symmetry, dict(ops=True, primitives=False, com=True), "SYMMETRIES"),
    "removed force": (tab.removed_force, None, "FORCE"),
    "dipole": (tab.dipole, None, "DIPOLE"),
    "solvation results": (tab.solvation_results, None, "SOLVATION"),
    "elastic properties": (tab.elastic_properties, None, "ELASTIC"),
    "raman": (tab.raman, dict(n=1, depol=True), "PHONON"),
    "delocalised internals": (tab.delocalised_internals, None, "GEOM_OPT"),
    "modos": (tab.modos, dict(n=2), "DELTA_SCF"),
    "internal constraints": (tab.internal_constraints, dict(kind="Bond", sat=True), "GEOM_OPT"),
    "berry phase": (tab.berry_phase, dict(unit="C/m^2"), "POLARISATION"),
    "supercell": (tab.supercell, None, None),
    "basis derivative": (tab.basis_derivative, None, None),
    "end points": (end_points, dict(), "TSS+POSITION"),
    "final energy": (c19.energies, dict(what="final"), None),
}


def of(fn):
    from pyvc.contract import CONTRACTS
    return next(c.variants[0] for c in CONTRACTS if c.fn is fn)


def section(g, name, part, *idx, facts=True):
    fn, var, _ = SECTIONS[name]
    return fn(Part(g, part, *idx, facts=facts), **(of(fn) if var is None else var))


def gates(name):
    return [[Filters[f] for f in alt.split("+")] for alt in (SECTIONS[name][2] or "").split()]


def gate(name):
    """Everything that selects the section."""
    return [f for alt in gates(name) for f in alt]


def head(g, *idx):
    """The first lines of a run."""
    return ([g.line(), g.line(" Compiled for linux_x86_64 on 14-04-2023"), g.line(" from code version ", g.fld(WORD, "version", *idx)),
             g.line(" Compiler: GNU Fortran; Optimisation: FAST"), g.line()],
            g.kv("build_info", g.D(g.kv("summary", g.cat("Compiled for linux_x86_64 on 14-04-2023 from code version ", g.fld(WORD, "version", *idx))),
                                   g.kv("compiler", "GNU Fortran; Optimisation: FAST"))))


def entries(g, d):
    return [g.kv(k, v) for k, v in d.items()] if isinstance(d, dict) else list(d.entries)


@contract("C18", variants=[dict(name=n) for n in SECTIONS], round=8)
def two_runs(g, name):
    """Both runs hold the section; each keeps its own."""
    h0, b0 = head(g, 0)
    h1, b1 = head(g, 1)
    l0, d0 = section(g, name, "a")
    l1, d1 = section(g, name, "b")
    return Case(parse_castep_file, [g.file(*h0, *l0, g.line(), *h1, *l1), Filters.FULL],
                expect=g.L(g.D(b0, *entries(g, d0)), g.D(b1, *entries(g, d1))))


@contract("C18", variants=[dict(name=n) for n in SECTIONS if SECTIONS[n][2] != "SYS_INFO"], round=8)
def unannounced_runs(g, name):
    """Runs are told apart also where what they begin with is not selected."""
    h0, _ = head(g, 0)
    h1, _ = head(g, 1)
    l0, d0 = section(g, name, "a")
    l1, d1 = section(g, name, "b")
    return Case(parse_castep_file, [g.file(*h0, *l0, g.line(), *h1, *l1), g.flags(Filters, on=gate(name), off=[Filters.SYS_INFO])],
                expect=g.L(d0, d1))


@contract("C18", variants=[dict(name=n) for n in ("forces", "bonds", "hirshfeld", "final energy", "elf", "stress")], round=8)
def many_runs(g, name):
    """Any number of runs."""
    n = g.count("runs", lo=1)
    g.each(n, lambda r: section(g, name, "a", r))

    def lines(r):
        return [*head(g, r)[0], *section(g, name, "a", r, facts=False)[0], g.line()]

    def run(r):
        return [g.D(head(g, r)[1], *entries(g, section(g, name, "a", r, facts=False)[1]))]
    return Case(parse_castep_file, [g.file(g.rep(n, lines)), Filters.FULL], expect=g.L(g.rep(n, run)))


@contract("C18", variants=[dict(name=n, alt=i) for n in SECTIONS for i in range(max(1, len(gates(n))))], round=8)
def selected(g, name, alt):
    """Selected alone or with any others, a section has the entries of a full read."""
    lines, d = section(g, name, "a")
    return Case(parse_castep_file, [g.file(*lines), g.flags(Filters, on=gates(name)[alt] if gates(name) else [])], expect=g.L(d))


@contract("C18", variants=[dict(name=n, missing=f.name) for n in SECTIONS for f in gate(n)[:1 if len(gates(n)) > 1 else None]])
def left_out(g, name, missing):
    """Not selected, whatever else is, a section leaves nothing."""
    lines, _ = section(g, name, "a")
    return Case(parse_castep_file, [g.file(*lines), g.flags(Filters, off=gate(name) if len(gates(name)) > 1 else [Filters[missing]])], expect=g.L())


@contract("C18", variants=[dict(name=n, first=f) for n in SECTIONS if gate(n) for f in (False, True)], round=8)
def beside(g, name, first):
    """What is selected is read in full next to a section that is not."""
    other = "hirshfeld" if "POPN_ANALYSIS" not in SECTIONS[name][2] else "cell"
    l0, _ = section(g, name, "a")
    l1, d1 = section(g, other, "b")
    lines = [*l1, g.line(), *l0] if first else [*l0, g.line(), *l1]
    return Case(parse_castep_file, [g.file(*lines), g.flags(Filters, on=gate(other), off=gate(name))], expect=g.L(d1))
