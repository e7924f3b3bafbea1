"""C22: the predicted output files follow from the calculation parameters."""
import pathlib

from castep_outputs.tools.get_generated_files import get_generated_files
from castep_outputs.parsers.cell_param_file_parser import parse_cell_param_file
from pyvc.contract import Case, contract
from pyvc.doc import Lex
from pyvc.fsmodel import with_stubs

from .c20_files import STEM

TAIL = Lex("TAIL", r"[0-9]+", lambda r: r.choice(["1", "25", "007"]))
WRITE = ("write_bib", "write_cst_esp", "write_bands", "write_geom", "write_md")
NLXC = {"hf", "hf-lda", "shf", "sx-lda", "shf-lda", "pbe0", "b3lyp", "hse03", "hse06", "spbe0"}
OEP = {"oep", "lfx", "elp", "ceda"}
#: spelling of a task -> what is run
TASKS = {
    "singlepoint": "energy", "SPE": "energy", "Energy": "energy", "phonon": "phonon",
    "phonon_efield": "phonon efield", "Phonon+Efield": "phonon efield", "PHONONEFIELD": "phonon efield",
    "efield": "efield", "Thermodynamics": "thermo", "EPCOUPLING": "epcoupling", "elastic": "elastic",
    "geomopt": "geom", "GeometryOptimisation": "geom", "geometryoptimization": "geom", "geometry optimization": "geom",
    "GEOM": "geom", "md": "md", "MolecularDynamics": "md", "dynamics": "md", "Molecular Dynamics": "md",
    "transition_state_search": "tss", "TSS": "tss", "TransitionStateSearch": "tss", "magres": "magres", "MagRes": "magres",
    "spectral": "spectral", "ElectronicSpectroscopy": "spectral", "BandStructure": "spectral", "band structure": "spectral",
    "ELNES": "spectral", "optics": "spectral", "Autosolvation": "autosolvation",
}
#: tasks after which no weights file is left
NO_PDOS = {"electronicspectroscopy", "bandstructure"}


def predict(seed, params, cell):
    """The prediction, and the inputs afterwards."""
    return get_generated_files(seed, param_data=params, cell_data=cell), params, cell


class Par:
    """Reading an optional parameter the way CASTEP's defaults say."""

    def __init__(self, g, d):
        self.g, self.d = g, d

    def on(self, key, default=False):
        return self.g.truth(self.g.opt(self.d, key, default))

    def sub(self, key):
        return self.g.opt(self.d, key)


def flags(g, *keys, where=""):
    return [(k, g.flag(f"value of {where}{k}")) for k in keys]


def seed_of(g, dotted=False):
    stem = g.fld(STEM, "stem")
    return g.cat(stem, ".", g.fld(TAIL, "tail")) if dotted else stem


GENERAL = ("write_formatted_potential", "write_formatted_density", "calculate_densdiff", "calculate_elf",
           "write_formatted_elf", "write_formatted_dielec_perm", "write_orbitals", "write_cif_structure",
           "write_cell_structure", "efield_calc_ion_permittivity", "calculate_modos", "pdos_calculate_weights",
           "spin_orbit_coupling", "spin_polarised", "spin_polarized", "write_none")
DEVEL = ("zdos_scf", "write_unformatted_density", "trace", "prof", "profclass", "write_formatted_bands", "pp_hybrid",
         "lda_sf_pot_write", "calculate_xrd_sf", "zdos_spectral", "calc_elastic", "_pp")
CHECK = {"all": "both", "BOTH": "both", "Full": "both", True: "both", "minimal": "bin", "MINIMAL": "bin", "none": "",
         False: "", "False": "", "true": "both"}


def spins(g, p):
    vector = g.cond(lambda v: v.upper() == "VECTOR", g.opt(p.d, "spin_treatment", "NONE"))
    return g.any_(vector, p.on("spin_orbit_coupling"), p.on("spin_polarised"), p.on("spin_polarized"))


def general(g, s, p, v, task, spelt, xc=()):
    """[(file, when it is written)] for what every task may write; p: parameters, v: development options."""
    name = lambda suffix: g.cat(s, suffix)
    wr = lambda k: g.all_(p.on(k, True), g.not_(p.on("write_none")))
    ck = g.cond(lambda c: CHECK[c] if c in CHECK else "both", g.opt(p.d, "write_checkpoint", "all"))
    pp = v.on("_pp")
    tddft = g.truth(g.opt(p.d, "tddft_selected_state", 0))
    yes = g.all_()
    full = g.all_(g.cond(lambda c: c == "both", ck), g.not_(p.on("write_none")))
    part = g.all_(g.cond(lambda c: c != "", ck), g.not_(p.on("write_none")))
    bands = g.all_(wr("write_bands"), g.not_(pp))
    out = [
        (name(".castep"), yes), (name(".check"), full), (name(".castep_bin"), part),
        (name(".bands"), g.all_(bands, g.not_(tddft))), (name("_tddft.bands"), g.all_(bands, tddft)),
        (name(".bib"), wr("write_bib")), (name(".cst_esp"), g.all_(wr("write_cst_esp"), g.not_(pp))),
        (name(".pot_fmt"), p.on("write_formatted_potential")),
        (name(".oep_fmt"), g.all_(p.on("write_formatted_potential"), bool(set(xc) & OEP))),
        (name(".den_fmt"), p.on("write_formatted_density")), (name(".chdiff"), p.on("calculate_densdiff")),
        (name(".chdiff_fmt"), g.all_(p.on("calculate_densdiff"), p.on("write_formatted_density"))),
        (name(".elf"), p.on("calculate_elf")), (name(".elf_fmt"), g.all_(p.on("calculate_elf"), p.on("write_formatted_elf"))),
        (name(".eps_format"), p.on("write_formatted_dielec_perm")), (name(".orbitals"), p.on("write_orbitals")),
        (name("-out.cif"), p.on("write_cif_structure")), (name("-out.cell"), p.on("write_cell_structure")),
        (name(".efield"), p.on("efield_calc_ion_permittivity")), (name(".modos_state*"), p.on("calculate_modos")),
        (name(".scf_zdos"), v.on("zdos_scf")), (name(".altden"), v.on("write_unformatted_density")),
        (name(".*.profile"), g.any_(v.on("trace"), v.on("prof"), v.on("profclass"))),
        (name("_*.orbit_fmt"), v.on("write_formatted_bands")),
        (name(".hybrid-md.xyz"), g.all_(v.on("pp_hybrid"), task in ("geom", "md"))),
        (name(".B_xc.pot_fmt"), g.all_(spins(g, p), v.on("lda_sf_pot_write"))), (name(".xrd_sf"), v.on("calculate_xrd_sf")),
        (name(".spectral_zdos"), g.all_(v.on("zdos_spectral"), task == "spectral")),
        (name(".elastic"), v.on("calc_elastic")),
        (name(".pdos_weights"), g.all_(p.on("pdos_calculate_weights"),
                                       spelt.replace(" ", "").lower() not in NO_PDOS)),
        (name(".tddft"), g.gt(g.opt(p.d, "tddft_selected_state", 0), 0)),
    ]
    return out


def inputs(g, params, devel=None, always=()):
    """Parameters in which each key may be absent, and their development options (None: no such block)."""
    v = g.optdict(*(devel or ()))
    if devel is not None:
        params = [*params, ("devel_code", v)]
    return g.optdict(*params, always=("task", "xc_functional", "devel_code", *always)), v


SPIN = ["VECTOR", "Vector", "scalar", "none"]


@contract("C22", variants=[dict(xc=x, devel=d, dotted=n) for x, d, n in
                           (("LDA", True, False), ("PBE0", True, True), ("Oep", False, False), (None, True, False),
                            (None, False, True))],
          samples=40, merging=True)
def what_any_task_writes(g, xc, devel, dotted):
    """All write flags and development options of an energy calculation, each present or not, on or off."""
    s = seed_of(g, dotted)
    params = [("task", "singlepoint"), *flags(g, *GENERAL, *WRITE), ("spin_treatment", g.oneof("spin", SPIN)),
              ("write_checkpoint", g.oneof("checkpoint", list(CHECK))), ("tddft_selected_state", g.count("state"))]
    if xc:
        params.append(("xc_functional", xc))
    p, v = inputs(g, params, flags(g, *DEVEL, where="devel ") if devel else None)
    files = general(g, s, Par(g, p), Par(g, v), "energy", "singlepoint", {xc.lower()} if xc else {"lda"})
    return Case(predict, [s, p, g.pydict()], expect=g.T(g.setsorted(*files), p, g.D()))


BASIC = ("write_orbitals", "pdos_calculate_weights", "write_none", "write_cell_structure", "efield_calc_ion_permittivity")


@contract("C22", variants=[dict(task=t) for t, k in TASKS.items() if k != "spectral"] + [dict(task=None)], samples=20,
          merging=True)
def what_each_task_writes(g, task):
    """Every task under each of its spellings: the files of the task and no others."""
    s = seed_of(g)
    kind = TASKS[task] if task else "energy"
    params = [*flags(g, *BASIC, *WRITE, "magres_write_response", "phonon_calculate_dos"),
              ("geom_method", g.oneof("geom method", ["LBFGS", "pes", "PES", "Pes", "delocalised"])),
              ("md_ensemble", g.oneof("ensemble", ["NVE", "nvhug", "NPHug", "NVHUG", "nphug", "npt"])),
              ("tddft_selected_state", g.count("state"))]
    if task:
        params.append(("task", task))
    phonon = g.optdict(*flags(g, "write_first_order_potential"))
    p, v = inputs(g, params, [*flags(g, "pp_hybrid", "zdos_spectral", where="devel "), ("phonon", phonon)])
    par, dev = Par(g, p), Par(g, v)
    wr = lambda k: g.all_(par.on(k, True), g.not_(par.on("write_none")))
    low = lambda k: g.cond(lambda x: x.lower(), g.opt(p, k, ""))
    name = lambda suffix: g.cat(s, suffix)
    potential = g.all_(g.present(v, "phonon"), g.truth(g.opt(phonon, "write_first_order_potential", False)))
    files = general(g, s, par, dev, kind, task or "singlepoint")
    md_check = [g.any_(kind == "md")]
    has = kind.split()
    files += [
        (name(".vacuum_den"), g.all_(kind == "autosolvation")), (name(".epme"), g.all_(kind == "epcoupling")),
        (name("-*-*-*.ep_pot"), g.any_(kind == "epcoupling", g.all_("phonon" in has, potential))),
        (name(".geom"), g.all_(kind == "geom", wr("write_geom"))),
        (name(".pes"), g.all_(kind == "geom", g.cond(lambda m: m == "pes", low("geom_method")))),
        (name(".md"), g.all_(kind == "md", wr("write_md"))),
        (name(".hug"), g.all_(kind == "md", g.cond(lambda m: m in ("nvhug", "nphug"), low("md_ensemble")))),
        (name(".*.wfm"), g.any_(*md_check)), (name(".*.drhom"), g.any_(*md_check)),
        (name(".magres"), g.all_(kind == "magres")),
        ("current.dat", g.all_(kind == "magres", par.on("magres_write_response"))),
        ("gsden.cube", g.all_(kind == "magres", par.on("magres_write_response"))),
        (name(".ts"), g.all_(kind == "tss")), (name(".phonon"), g.all_("phonon" in has)),
        (name(".phonon_dos"), g.all_("phonon" in has, par.on("phonon_calculate_dos"))),
        (name(".efield"), g.all_("efield" in has)),
    ]
    return Case(predict, [s, p, g.pydict()], expect=g.T(g.setsorted(*files), p, g.D()))


EXTRAP = ["first", "FIRST", "Second", "second", "mixed", "Mixed", "none", "NONE"]


@contract("C22", variants=[dict(farms=f, beads=b) for f, b in ((None, True), (1, True), (2, True), (3, True), (12, True),
                                                               (4, False))], samples=30, merging=True)
def what_dynamics_writes(g, farms, beads):
    """Wavefunction extrapolation files and the outputs of the farms of a path-integral run."""
    s = seed_of(g)
    bias = g.count("bias", lo=-100, sample=[-7, -1, 0, 3])
    params = [("task", "MolecularDynamics"), *flags(g, "write_md", "write_none"), ("md_extrap", g.oneof("extrap", EXTRAP)),
              ("opt_strategy", g.oneof("strategy", ["default", "Memory", "MEMORY", "speed"])), ("opt_strategy_bias", bias),
              ("metals_method", g.oneof("method", ["dm", "DM", "edft", "EDFT"]))]
    if farms is not None:
        params.append(("num_farms", farms))
    if beads:
        params.append(("md_num_beads", g.count("beads")))
    p, v = inputs(g, params, always=("num_farms",))
    par = Par(g, p)
    name = lambda suffix: g.cat(s, suffix)
    low = lambda k, d: g.cond(lambda x: x.lower(), g.opt(p, k, d))
    memory = g.any_(g.cond(lambda x: x.lower() == "memory", g.opt(p, "opt_strategy", "default")),
                    g.gt(g.opt(p, "opt_strategy_bias", 0), -1))
    dm = g.cond(lambda x: x.lower() == "dm", g.opt(p, "metals_method", "dm"))
    first = g.cond(lambda x: x.lower() in ("first", "second", "mixed"), g.opt(p, "md_extrap", "first"))
    second = g.cond(lambda x: x.lower() in ("second", "mixed"), g.opt(p, "md_extrap", "first"))
    files = general(g, s, par, Par(g, v), "md", "moleculardynamics")
    files += [
        (name(".md"), g.all_(par.on("write_md", True), g.not_(par.on("write_none")))),
        *((name(e), g.all_(dm, first, memory)) for e in (".*.wfm", ".*.drhom")),
        *((name(e), g.all_(dm, second, memory)) for e in (".*.wf2m", ".*.drho2m")),
        *((name(f"_farm{i:03}.castep"), g.all_((farms or 1) > 1, g.gt(g.opt(p, "md_num_beads", 1), 1)))
          for i in range(farms or 1)),
    ]
    return Case(predict, [s, p, g.pydict()], expect=g.T(g.setsorted(*files), p, g.D()))


@contract("C22", variants=[dict(task=t) for t in ("singlepoint", "phonon", "Phonon_Efield")], samples=30, merging=True)
def what_development_options_add(g, task):
    """Options in the sub-blocks of the development code."""
    s = seed_of(g)
    phonon = g.optdict(*flags(g, "write_first_order_potential"), ("write_external_born", g.cat(g.fld(STEM, "born"), ".born")))
    tddft = g.optdict(*flags(g, "den1_write", "save_td_den_fmt"))
    elastic = g.optdict(*flags(g, "deform_pot"))
    params = [("task", task), *flags(g, *BASIC), ("tddft_selected_state", g.count("state"))]
    subs = {"phonon": phonon, "tddft": tddft, "elastic": elastic, "pp": g.optdict(*flags(g, "fd_check", "pot_print"))}
    p, v = inputs(g, params, [*flags(g, "calc_elastic", "_pp", where="devel "), *subs.items()])
    par, dev = Par(g, p), Par(g, v)
    sub = lambda blk, key: g.all_(g.present(v, blk), g.truth(g.opt(subs[blk], key, False)))
    name = lambda suffix: g.cat(s, suffix)
    on = g.gt(g.opt(p, "tddft_selected_state", 0), 0)
    ph = "phonon" in task.lower()
    files = general(g, s, par, dev, TASKS[task] if task in TASKS else "phonon", task)
    files += [
        (name(".elastic"), g.present(v, "elastic")), (name(".phonon"), g.all_(ph)),
        (name(".efield"), g.all_("efield" in task.lower())),
        (name("-*-*-*.ep_pot"), g.all_(ph, sub("phonon", "write_first_order_potential"))),
        (g.cat(g.fld(STEM, "born"), ".born"), g.all_(ph, sub("phonon", "write_external_born"))),
        (name(".td_den"), g.all_(on, sub("tddft", "den1_write"))),
        ("den_dump*.dat", g.all_(on, sub("tddft", "save_td_den_fmt"))),
        (name("_*_.pot"), g.all_(dev.on("_pp"), sub("pp", "pot_print"))),
        (name(".fd"), g.all_(dev.on("_pp"), sub("pp", "fd_check"))),
    ]
    return Case(predict, [s, p, g.pydict()], expect=g.T(g.setsorted(*files), p, g.D()))


# ---------------------------------------------------------------------------------------------- spectral tasks
#: (theory, spectral task) -> the matrix elements calculated; "local": with local functionals only
SPECTRA = {
    ("dft", "coreloss"): {"elnes": True, "ome": True}, ("dft", "optics"): {"dome": True}, ("dft", "dos"): {"ome": "local"},
    ("dft", "bandstructure"): {}, ("dft", "all"): {"elnes": "local", "ome": "local", "dome": "local"},
    ("tddft", "optics"): {"dome": True}, ("tddft", "dos"): {}, ("tddft", "bandstructure"): {}, ("tddft", "all"): {"dome": True},
}


@contract("C22", variants=[dict(task=t, theory=h, what=w, xc=x) for t, h, w, x in (
    [("spectral", "dft", w, x) for w in ("CoreLoss", "optics", "DOS", "BandStructure", "all", None) for x in ("PBE", "HSE06")] +
    [("Spectral", "TDDFT", w, x) for w in ("CoreLoss", "Optics", "dos", "bandstructure", "ALL", None) for x in ("LDA", "sX-LDA")] +
    [(t, None, "all", "LDA") for t, k in TASKS.items() if k == "spectral"] +
    [("spectral", "tdDFT", "all", x) for x in sorted(NLXC)] + [("spectral", None, "Dos", x) for x in sorted(NLXC)])],
    samples=10, merging=True)
def what_spectra_write(g, task, theory, what, xc):
    """Spectral tasks: matrix elements by theory, kind and functional, unless development options say otherwise."""
    s = seed_of(g)
    devel = g.optdict(*flags(g, "calc_core", "calc_ome", "calc_pdos", "calc_dome"))
    params = [("task", task), ("xc_functional", xc), *flags(g, "spectral_restart", "write_orbitals", "pdos_calculate_weights",
                                                            "write_none", *WRITE)]
    if theory:
        params.append(("spectral_theory", theory))
    if what:
        params.append(("spectral_task", what))
    p, v = inputs(g, params, [*flags(g, "zdos_spectral", where="devel "), ("spectral", devel), ("spectral_spinvec", None),
                              ("spectral_spinvec_append", None)], always=("spectral_theory", "spectral_task"))
    par, dev = Par(g, p), Par(g, v)
    theory, what = (theory or "dft").lower(), (what or "bandstructure").lower()
    nonlocal_ = xc.lower() in NLXC
    done = SPECTRA.get((theory, what))
    if done is None or done == SPECTRA["dft", "coreloss"] and nonlocal_:
        return Case(predict, [s, p, g.pydict()], raises=(KeyError,))
    name = lambda suffix: g.cat(s, suffix)
    files = general(g, s, par, dev, "spectral", task)
    files += [(name("-out.cell"), g.all_()), (name(".*.spec"), par.on("spectral_restart", True)),
              (name(".orbitals"), g.any_(task.replace(" ", "").lower() == "bandstructure")),
              (name(".nc_spinvec"), g.all_(g.present(v, "spectral_spinvec"), g.present(v, "spectral_spinvec_append")))]
    for k, opt in (("elnes", "calc_core"), ("ome", "calc_ome"), ("dome", "calc_dome"), ("pdos", "calc_pdos")):
        usual = par.on("pdos_calculate_weights") if k == "pdos" else \
            g.all_(not nonlocal_ if done.get(k) == "local" else done.get(k, False))
        said = g.all_(g.present(v, "spectral"), g.present(devel, opt))
        on = g.any_(g.all_(said, g.truth(g.opt(devel, opt, False))), g.all_(g.not_(said), usual))
        files.append((name(f"{'_tddft' if theory == 'tddft' else ''}.{k}_bin"), on))
    return Case(predict, [s, p, g.pydict()], expect=g.T(g.setsorted(*files), p, g.D()))


# ---------------------------------------------------------------------------------------------- potentials
#: functionals -> theory in the name of a generated potential
THEORY = [
    ("LDA", "LDA"), (None, "LDA"), ("PW91", "pbe"), ("PBE", "pbe"), ("RPBE", "rpbe"), ("PBEsol", "pbesol"), ("WC", "wc"),
    ("BLYP", "blyp"), ("LDA_PW", "lda_pw"), ("PBE0", "LDA"), ("HF", "LDA"), ("LIBXC_GGA_X_PBE", "PBE"),
    ("LIBXC_HYB_GGA_XC_B3LYP", "PBE"), ("LIBXC_LDA_X", "LDA"),
]
META = [("MS2", "ms2"), ("rSCAN", "rscan"), ("R2SCAN", "rscan"), ("libxc_mgga_x_scan", "RSCAN"),
        ("libxc_hyb_mgga_xc_revtpssh", "RSCAN")]
MIXED = [(("LIBXC_GGA_X_B88", "PBE"), "PBE", False), (("pbe", "HF"), "pbe", False), (("hf", "PBE"), "pbe", False),
         (("LDA", "libxc_mgga_c_tpss", "libxc_gga_c_pbe"), "RSCAN", True), (("LDA", "HF"), "LDA", False),
         (("rscan", "hf"), "rscan", True)]
POT = ("gamma", "pwave", "beta", "econv")


@contract("C22", variants=[dict(xc=x, theory=t, meta=False, n=n) for k, (x, t) in enumerate(THEORY) for n in (1, 2)
                           if n == 1 or k % 4 == 0] +
          [dict(xc=x, theory=t, meta=True, n=1) for x, t in META] +
          [dict(xc=x, theory=t, meta=m, n=2) for x, t, m in MIXED], samples=10, merging=True)
def which_potentials_are_left(g, xc, theory, meta, n):
    """On-the-fly potentials: named after species and theory, of a kind that follows from the spin treatment."""
    s = seed_of(g)
    params = [("task", "singlepoint"), *flags(g, "write_otfg", "spin_orbit_coupling", "spin_polarised", "spin_polarized"),
              ("spin_treatment", g.oneof("spin", SPIN))]
    always = ["xc_definition"]
    if isinstance(xc, tuple):
        params.append(("xc_definition", g.pydict(g.kv("xc", g.pydict(*(g.kv(x, 1.0) for x in xc))))))
        params.append(("xc_functional", "pbe"))
    elif xc:
        params.append(("xc_functional", xc))
    p, v = inputs(g, params, always=always)
    species = ["Si", "C:a"][:n]
    pots = [g.optdict(("print", g.flag(f"print {k}"))) for k in range(n)]
    cell = g.pydict(g.kv("species_pot", g.pydict(*(g.kv(x, q) for x, q in zip(species, pots)), g.kv("O", "O_00PBE.usp"))))
    par = Par(g, p)
    files = general(g, s, par, Par(g, v), "energy", "singlepoint")
    spin = spins(g, par)
    for x, q in zip(species, pots):
        otf = f"{x}_EXT_{theory}_OTF"
        files += [(f"{otf}.{e}", g.truth(g.opt(q, "print", False))) for e in POT]
        on = g.all_(par.on("write_otfg", True), not meta)
        files += [(f"{otf}.uspso", g.all_(on, spin)), (f"{otf}.usp", g.all_(on, g.not_(spin)))]
    return Case(predict, [s, p, cell], expect=g.T(g.setsorted(*files), p, g.D(g.kv("species_pot", g.D(
        *(g.kv(x, q) for x, q in zip(species, pots)), g.kv("O", "O_00PBE.usp"))))))


@contract("C22", variants=[dict(atoms=a) for a in ([("Si", 1), ("N", 1), ("Si", 2)], [("H", 1)], [],
                                                   [("C", 1), ("H:a", 1), ("O", 1), ("H", 1)])], samples=10, merging=True)
def which_pair_potentials_are_left(g, atoms):
    """One file per pair of species of the cell."""
    s = seed_of(g)
    pp = g.optdict(*flags(g, "pot_print", "fd_check"))
    p, v = inputs(g, [("task", "energy")], [("_pp", g.flag("pp")), ("pp", pp)])
    par, dev = Par(g, p), Par(g, v)
    on = lambda k: g.all_(dev.on("_pp"), g.present(v, "pp"), g.truth(g.opt(pp, k, False)))
    make = lambda mk: mk(g.kv("positions_frac", mk(*(g.kv(a, mk()) for a in atoms)))) if atoms is not None else mk()
    order = list(dict.fromkeys(a for a, _ in atoms))
    files = general(g, s, par, dev, "energy", "energy")
    files += [(g.cat(s, f"_{a}_{b}.pot"), on("pot_print")) for i, a in enumerate(order) for b in order[i:]]
    files += [(g.cat(s, ".fd"), on("fd_check"))]
    return Case(predict, [s, p, make(g.pydict)], expect=g.T(g.setsorted(*files), p, make(g.D)))


# ---------------------------------------------------------------------------------------------- what cannot be predicted
@contract("C22", variants=[dict(task=t, check=c) for t, c in (("wannier", "all"), ("Socket_Driver", "all"), ("SOCKETDRIVER", "all"),
                                                             ("nonsense", "all"), ("", "all"), ("geom", "sometimes"),
                                                             ("md", "ALL OF IT"))], samples=4, merging=True)
def what_is_not_predicted(g, task, check):
    """Unsupported tasks and unknown settings are errors, not guesses."""
    s = seed_of(g)
    p, v = inputs(g, [("task", task), ("write_checkpoint", check), *flags(g, *BASIC[:2], *WRITE)], always=("write_checkpoint",))
    raises = {"wannier": KeyError, "nonsense": ValueError, "": ValueError}.get(task, NotImplementedError)
    return Case(predict, [s, p, g.pydict()], raises=(raises,))


# ---------------------------------------------------------------------------------------------- where the inputs come from
def from_files(seed, stub, kw):
    def parse(f):
        return [stub[str(f) if isinstance(f, pathlib.Path) else str(f.name)]]
    return with_stubs([(parse_cell_param_file, parse)], get_generated_files, [seed], kw)


@contract("C22", variants=[dict(param=a, cell=b, suffix=x) for a in ("seed", "none", "file", "data") for b in
                           ("seed", "none", "file", "data") for x in ("", ".cell", ".param", ".1")], samples=4, merging=True)
def inputs_are_found(g, param, cell, suffix):
    """Parameters and cell: the data given, else the files named, else the seed's own files, else nothing."""
    d = g.tmpdir()
    stem = g.fld(STEM, "stem")
    base = g.cat(stem, suffix if suffix == ".1" else "")
    seed = g.cat(d, "/", stem, suffix)
    stub, kw, orb, pot = [], [], False, False
    for what, ext, how in (("param", ".param", param), ("cell", ".cell", cell)):
        content = g.pydict(g.kv("write_orbitals", True)) if what == "param" else \
            g.pydict(g.kv("species_pot", g.pydict(g.kv("Si", g.pydict()))))
        own = g.cat(d, "/", base, ext)
        other = g.cat(d, "/", base, "-other", ext)
        for f, there in ((own, how == "seed"), (other, how == "file")):
            if there:
                g.path(f, [])
            else:
                g.is_file(f, False)
        stub += [g.kv(own, content), g.kv(other, content)]
        if how == "file":
            kw.append(g.kv(f"{what}_file", g.pathobj(other)))
        elif how == "data":
            kw.append(g.kv(f"{what}_data", content))
        if how != "none":
            orb, pot = orb or what == "param", pot or what == "cell"
    files = [(g.cat(base, e), True) for e in (".castep", ".check", ".castep_bin", ".bands", ".bib", ".cst_esp")]
    files += [(g.cat(base, ".orbitals"), orb), ("Si_EXT_LDA_OTF.usp", pot)]
    return Case(from_files, [g.pathobj(seed) if suffix == "" else seed, g.pydict(*stub), g.pydict(*kw)],
                expect=g.setsorted(*files))
