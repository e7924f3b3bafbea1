"""C15: electron-phonon matrix elements, elastic constants, path searches, magnetic resonance."""
from castep_outputs.parsers.elastic_file_parser import parse_elastic_file
from castep_outputs.parsers.epme_file_parser import parse_epme_file
from castep_outputs.parsers.magres_file_parser import parse_magres_file
from castep_outputs.parsers.ts_file_parser import parse_ts_file
from pyvc.contract import Case, contract

from .c12_trajectories import ALIAS, MATRICES, SCALARS, atom_key
from .common import *


@contract("C15")
def epme(g):
    np, nr = g.count("np"), lambda i: g.count("nr", i)
    ver, vol, ef, nb, nph = (g.fld(INT, "version"), g.fld(FLTX, "volume"), g.fld(FLTX, "fermi"), g.fld(INT, "nb"),
                             g.fld(INT, "nph"))
    head = [g.line(" Electron-phonon coupling file"), g.line(" Version", g.sp, ver), g.line(" All units are atomic units"),
            g.line(" Unit cell volume", g.sp, vol, g.sp0), g.line(" Fermi Energy", g.sp, ef),
            g.line(" Number of bands:", g.sp, nb), g.line(" Number of phonon branches:", g.sp, nph)]

    def pair(i):
        return [g.line("Electron-Phonon coupling matrix elements between kpoints (", *spaced(g, fields(g, FLT, "ki", i)),
                       ") and (", *spaced(g, fields(g, FLT, "kf", i)), ")"),
                g.line("Ph index  Band_i  Band_f      ph_freq         E_i         E_f          velocity"),
                g.rep(nr(i), lambda j: [g.line(*flush(g, fields(g, INT, "id", i, j)),
                                               *spaced(g, fields(g, FLT, "v", i, j, n=11)))])]

    def row(i, j, freq):
        v = [g.flt(f) for f in fields(g, FLT, "v", i, j, n=11)]
        ids = [g.int(f) for f in fields(g, INT, "id", i, j)]
        o = 1 if freq else 0
        kv = [g.kv("kpt_i", g.T(*[g.flt(f) for f in fields(g, FLT, "ki", i)])),
              g.kv("kpt_f", g.T(*[g.flt(f) for f in fields(g, FLT, "kf", i)])),
              g.kv("ph_index", ids[0]), g.kv("band_i", ids[1]), g.kv("band_f", ids[2]),
              g.kv("e_i", v[o]), g.kv("e_f", v[o + 1]),
              g.kv("velocity", g.T(g.T(*v[o + 2:o + 5]), g.T(*v[o + 5:o + 8]))),
              g.kv("e_p_matrix", g.cplx(v[o + 8], v[o + 9]))]
        if freq:
            kv.append(g.kv("freq", v[0]))
        return g.D(*kv)

    def exp(freq):
        return g.D(g.kv("version", g.int(ver)), g.kv("volume", g.flt(vol)), g.kv("fermi_energy", g.flt(ef)),
                   g.kv("n_bands", g.int(nb)), g.kv("n_branches", g.int(nph)),
                   g.kv("data", g.L(g.rep(np, lambda i: [g.rep(nr(i), lambda j: [row(i, j, freq)])]))))
    return Case(parse_epme_file, [g.file(*head, g.rep(np, pair))], expect=exp(True),
                known=[("C15-epme-columns", exp(False))])


TENSORS = {"Elastic Constants": ("elastic_constants", "GPa", 6), "Compliance Matrix": ("compliance_matrix", "GPa^-1", 6),
           "Elastic Constants [Frozen Ion]": ("elastic_constants_frozen_ion", "GPa", 6),
           "Relaxed Ion Contribution": ("relaxed_ion_contribution", "GPa", 6),
           "Piezoelectric": ("piezoelectric", "C/m^2", 3),
           "Piezoelectric [Frozen Ion]": ("piezoelectric_frozen_ion", "C/m^2", 3),
           "Relaxed Ion Piezoelectric Contribution": ("relaxed_ion_piezoelectric_contribution", "C/m^2", 3)}
FORT = Lex("FORT", r"-?\d*\.\d+(E[+-]\d{2})?", lambda r: r.choice([f"{r.uniform(-99, 99):.13f}", f"-.{r.randrange(10**9)}E-{r.randrange(10, 30)}",
                                                                  f"0.{r.randrange(10**9)}E-{r.randrange(10, 30)}"]))


def tensor(g, name):
    key, unit, n = TENSORS[name]
    ls, vs = [g.line(f" BEGIN {name} ({unit})")], []
    for r in range(n):
        f = fields(g, FORT, key, r, n=6)
        ls.append(g.line(*flush(g, f)))
        vs.append(g.T(*[g.flt(x) for x in f]))
    return [*ls, g.line(f" END {name}")], g.kv(key, g.D(g.kv("units", unit), g.kv("val", g.T(*vs))))


def strain(g, na):
    def atom(a):
        return [g.line(g.sp0, g.fld(INT, "row", a), g.sp, g.fld(SPEC, "spec", a), g.sp, d, "   ",
                       *spaced(g, fields(g, FORT, "st", a, r, n=6))) for r, d in enumerate("XYZ")]
    return [g.line(" BEGIN Internal Strain (eV/A)"), g.rep(na, atom), g.line(" END Internal Strain")]


def strain_value(g, na, row):
    def atom(a):
        i = g.int(g.fld(INT, "row", a))
        return g.kv(g.T(g.fld(SPEC, "spec", a), i), g.L(*[g.T(
            *([g.flt(g.fld(INT, "row", a))] if row else []), *[g.flt(x) for x in fields(g, FORT, "st", a, r, n=6)])
            for r in range(3)]))
    return g.kv("internal_strain", g.D(g.kv("units", "eV/A"), g.rep(na, atom)))


@contract("C15", variants=[dict(tensors=tuple(TENSORS)), dict(tensors=("Elastic Constants",)),
                           dict(tensors=("Piezoelectric", "Compliance Matrix"), tail=True)])
def elastic(g, tensors, tail=False):
    ni, na = g.count("ni", lo=1), g.count("na")
    cl, cv = cell_rows(g)
    al, av = frac_coords(g, ni)
    head = [g.line(" BEGIN header"), g.line("  Number of ions", g.sp, g.num(ni)), g.line(" Unit cell vectors (A)"), *cl,
            g.line(" Fractional Co-ordinates"), al, g.line(" END header")]
    blocks, vals = [], []
    for t in tensors:
        ls, v = tensor(g, t)
        blocks += ls
        vals.append(v)
    g.distinct(na, lambda a: g.T(g.fld(SPEC, "spec", a), g.int(g.fld(INT, "row", a))))
    st = strain(g, na)
    f = g.file(*head, *(blocks + st if tail else st + blocks))

    def exp(row):
        return g.D(g.kv("ions", ni), g.kv("unit_cell", cv), g.kv("coords", av), strain_value(g, na, row), *vals)
    return Case(parse_elastic_file, [f], expect=exp(False), known=[("C15-strain-row-number", exp(True))])


def image(g, kind, na, *i):
    n = kind
    out = [g.line(f" {kind}", g.sp, g.fld(INT, n + "id", *i), g.sp, g.fld(FLTX, n + "rc", *i)),
           g.line(*flush(g, fields(g, FLTX, n + "E", *i, n=2)), g.sp, "<-- E")]
    for r in range(3):
        out.append(g.line(*flush(g, fields(g, FLTX, n + "h", *i, r)), g.sp, "<-- h"))
    for t in "RF":
        out.append(g.rep(na, lambda a, t=t: [g.line(
            g.sp0, g.fld(SPEC, n + "spec", *i, a), g.sp, g.fld(INT, n + "ind", *i, a),
            *spaced(g, fields(g, FLTX, n + t, *i, a)), g.sp, "<-- " + t)]))
    return out


def image_value(g, kind, na, *i):
    n = kind
    e = g.L(g.L(*[g.flt(x) for x in fields(g, FLTX, n + "E", *i, n=2)]))
    h = g.L(*[g.L(*[g.flt(x) for x in fields(g, FLTX, n + "h", *i, r)]) for r in range(3)])

    def ion(a):
        kv = []
        for t in "RF":
            v = g.T(*[g.flt(x) for x in fields(g, FLTX, n + t, *i, a)])
            kv += [g.kv(t, v), g.kv(ALIAS[t], v)]
        return g.kv(image_atom(g, n, *i, a), g.D(*kv))
    return g.D(g.kv("reaction_coordinate", g.flt(g.fld(FLTX, n + "rc", *i))), g.kv("E", e), g.kv("energy", e),
               g.kv("h", h), g.kv("lattice_vectors", h), g.rep(na, ion))


def image_atom(g, n, *i):
    return g.T(g.fld(SPEC, n + "spec", *i), g.int(g.fld(INT, n + "ind", *i)))


@contract("C15", variants=[dict(), dict(sep="  "), dict(confirm=False), dict(last=False)])
def ts(g, confirm=True, sep="", last=True):
    na, nt = g.count("na"), g.count("nt", lo=0 if last else 1)
    for k in ("REA", "PRO"):
        g.distinct(na, lambda a, k=k: image_atom(g, k, a))
    g.each(nt, lambda i: g.distinct(na, lambda a: image_atom(g, "TST", i, a)))
    lines = [g.line(" TSTYPE TSConfirmation")] if confirm else [g.line(" TSTYPE LST")]
    for k in ("REA", "PRO"):
        lines += [*image(g, k, na), g.line(sep)]
    m = nt if last else g.add(nt, -1)
    lines.append(g.rep(m, lambda i: [*image(g, "TST", na, i), g.line(sep)]))
    if not last:
        lines += image(g, "TST", na, m)
    kv = [g.kv("confirmation", True)] if confirm else []
    kv += [g.kv("reagent", g.L(image_value(g, "REA", na))), g.kv("product", g.L(image_value(g, "PRO", na)))]
    tst = g.kv("test", g.L(g.rep(nt, lambda i: [image_value(g, "TST", na, i)])))
    if g.symbolic:
        g.assume(nt.t > 0)
        kv.append(tst)
    elif nt:
        kv.append(tst)
    return Case(parse_ts_file, [g.file(*lines)], expect=g.D(*kv))


TAGS9 = 9
MS = {"ms": "magnetic_resonance_shielding", "efg": "electric_field_gradient", "efg_local": "local_electric_field_gradient",
      "efg_nonlocal": "nonlocal_electric_field_gradient"}
ISC = {"isc_fc": "j_coupling_fc", "isc_orbital_p": "j_coupling_orbital_p", "isc_orbital_d": "j_coupling_orbital_d",
       "isc_spin": "j_coupling_spin", "isc": "j_coupling_k_total"}


def calc_block(g, version):
    name, cut = g.fld(LABEL, "seed"), g.fld(FLT, "cut")
    grid = fields(g, INT, "grid")
    ls = [g.line("[calculation]"), g.line("calc_code CASTEP"), g.line("calc_code_version", g.sp, version),
          g.line("calc_name", g.sp, name), g.line("calc_comment"), g.line("calc_cutoffenergy", g.sp, cut, " eV"),
          g.line("calc_kpoint_mp_grid ", grid[0], " ", grid[1], " ", grid[2]), g.line("[/calculation]")]
    return ls, g.kv("calc", g.D(g.kv("code", "CASTEP"), g.kv("code_version", version), g.kv("name", name),
                                g.kv("cutoffenergy", g.cat(cut, " eV")),
                                g.kv("kpoint_mp_grid", g.cat(grid[0], " ", grid[1], " ", grid[2]))))


def site(g, n, *i):
    return g.T(g.fld(SPEC, n + "spec", *i), g.int(g.fld(INT, n + "ind", *i)))


def site_text(g, n, *i):
    return [g.sp, g.fld(SPEC, n + "spec", *i), g.sp, g.fld(INT, n + "ind", *i)]


def nine(g, n, *i):
    return spaced(g, fields(g, FLTX, n, *i, n=9))


def nine_value(g, n, *i):
    return g.T(*[g.flt(x) for x in fields(g, FLTX, n, *i, n=9)])


def atoms_block(g, na):
    def atom(a):
        s = g.fld(SPEC, "spec", a)
        return [g.line("atom ", g.fld(SPEC, "elem", a), g.sp, s, g.sp, g.fld(INT, "ind", a), *spaced(g, fields(g, FLTX, "pos", a)))]
    ls = [g.line("[atoms]"), g.line("units lattice Angstrom"), g.line("lattice", *nine(g, "lat")),
          g.line("units atom Angstrom"), g.line("symmetry x,y,z"), g.rep(na, atom), g.line("[/atoms]")]
    return ls, g.kv("atoms", g.D(
        g.kv("units", g.D(g.kv("lattice", "Angstrom"), g.kv("atom", "Angstrom"))),
        g.kv("coords", g.D(g.rep(na, lambda a: g.kv(site(g, "", a), pos_value(g, a))))),
        g.kv("lattice", nine_value(g, "lat"))))


def pos_value(g, a):
    return g.T(*[g.flt(x) for x in fields(g, FLTX, "pos", a)])


@contract("C15", variants=[dict(site_tags=("ms",), pair_tags=()), dict(site_tags=("ms", "efg"), pair_tags=("isc_fc", "isc")),
                           dict(site_tags=(), pair_tags=("isc",)),
                           dict(site_tags=("efg", "efg_local", "efg_nonlocal"),
                                pair_tags=("isc_orbital_p", "isc_orbital_d", "isc_spin"))])
def magres(g, site_tags, pair_tags):
    na = g.count("na")
    g.distinct(na, lambda a: site(g, "", a))
    cl, cv = calc_block(g, "23.1")
    al, av = atoms_block(g, na)
    ls, kv = [g.line("[magres]")], []
    for t in site_tags:
        n = g.count("n" + t)
        g.distinct(n, lambda a, t=t: site(g, t, a))
        ls += [g.line("units ", t, " ppm"), g.rep(n, lambda a, t=t: [g.line(t, *site_text(g, t, a), *nine(g, t, a))])]
        v = g.D(g.rep(n, lambda a, t=t: g.kv(site(g, t, a), nine_value(g, t, a))))
        if g.symbolic:
            g.assume(n.t > 0)
        if g.symbolic or n:
            kv += [g.kv(t, v), g.kv(MS[t], v)]
    for t in pair_tags:
        n = g.count("n" + t)
        g.distinct(n, lambda a, t=t: g.T(site(g, t, a), site(g, t + "2", a)))
        ls += [g.line("units ", t, " 10^19.T^2.J^-1"), g.rep(n, lambda a, t=t: [
            g.line(t, *site_text(g, t, a), *site_text(g, t + "2", a), *nine(g, t, a))])]
        v = g.D(g.rep(n, lambda a, t=t: g.kv(g.T(site(g, t, a), site(g, t + "2", a)), nine_value(g, t, a))))
        if g.symbolic:
            g.assume(n.t > 0)
        if g.symbolic or n:
            kv += [g.kv(t, v), g.kv(ISC[t], v)]
    ls.append(g.line("[/magres]"))
    units = g.kv("units", g.D(*[g.kv(t, "ppm") for t in site_tags], *[g.kv(t, "10^19.T^2.J^-1") for t in pair_tags]))
    f = g.file(g.line("#$magres-abinitio-v1.0"), *cl, *al, *ls)
    return Case(parse_magres_file, [f], expect=g.D(cv, av, g.kv("magres", g.D(units, *kv))))


IND5 = Lex("IND5", r"\d{5}", lambda r: f"{r.randrange(10000, 99999)}")
IND3 = Lex("IND3", r"\d{3}", lambda r: f"{r.randrange(100, 999)}")


@contract("C15", variants=[dict(version="23.1"), dict(version="19.11")])
def magres_joined(g, version):
    """Sites whose index fills its column and runs into the species name."""
    na, n = g.count("na"), g.count("n", lo=1)
    lex = IND5 if version == "23.1" else IND3
    g.distinct(na, lambda a: site(g, "", a))

    def key(a):
        return g.T(g.fld(SPEC, "jspec", a), g.int(g.fld(lex, "jind", a)))
    g.distinct(n, key)
    cl, cv = calc_block(g, version)
    al, av = atoms_block(g, na)
    ls = [g.line("[magres]"), g.line("units ms ppm"),
          g.rep(n, lambda a: [g.line("ms", g.sp, g.fld(SPEC, "jspec", a), g.fld(lex, "jind", a), *nine(g, "ms", a))]),
          g.line("[/magres]")]
    v = g.D(g.rep(n, lambda a: g.kv(key(a), nine_value(g, "ms", a))))
    return Case(parse_magres_file, [g.file(g.line("#$magres-abinitio-v1.0"), *cl, *al, *ls)],
                expect=g.D(cv, av, g.kv("magres", g.D(g.kv("units", g.D(g.kv("ms", "ppm"))), g.kv("ms", v),
                                                      g.kv(MS["ms"], v)))))


@contract("C15")
def magres_old(g):
    na = g.count("na")
    g.distinct(na, lambda a: site(g, "", a))
    cl, cv = calc_block(g, "23.1")
    al, av = atoms_block(g, na)
    rule = "============"

    def name(a):
        return [g.fld(SPEC, "spec", a), g.sp, g.fld(INT, "ind", a)]

    def atom(a):
        out = [g.line(rule), g.line("Atom: ", *name(a)), g.line(rule),
               g.line(*name(a), " Coordinates ", *spaced(g, fields(g, FLT, "opos", a)), g.sp, "A"), g.line(""),
               g.line("TOTAL Shielding Tensor"), g.line(""),
               *[g.line(*flush(g, fields(g, FLT, "tot", a, r))) for r in range(3)], g.line("")]
        for r, d in enumerate(("xx", "yy", "zz")):
            out += [g.line(*name(a), " Eigenvalue  sigma_" + d, g.sp, g.fld(FLT, "eval", a, r), " (ppm)"),
                    g.line(*name(a), " Eigenvector sigma_" + d, *spaced(g, fields(g, FLT, "evec", a, r)))]
        return [*out, g.line(""), g.line(*name(a), " Isotropic: ", g.sp, g.fld(FLT, "iso", a), " (ppm)"),
                g.line(*name(a), " Anisotropy: ", g.sp, g.fld(FLT, "aniso", a), " (ppm)"),
                g.line(*name(a), " Asymmetry: ", g.sp, g.fld(FLT, "asym", a)), g.line("")]

    def info(a):
        return g.kv(site(g, "", a), g.D(
            g.kv("coords", pos_value(g, a)),
            g.kv("eigvenvalue", g.L(*[g.flt(x) for x in fields(g, FLT, "eval", a)])),
            g.kv("eigvenvector", g.L(*[g.T(*[g.flt(x) for x in fields(g, FLT, "evec", a, r)]) for r in range(3)])),
            g.kv("isotropic", g.flt(g.fld(FLT, "iso", a))), g.kv("anisotropy", g.flt(g.fld(FLT, "aniso", a))),
            g.kv("asymmetry", g.flt(g.fld(FLT, "asym", a)))))

    def total(a):
        return g.L(*[g.T(*[g.flt(x) for x in fields(g, FLT, "tot", a, r)]) for r in range(3)])
    f = g.file(g.line("#$magres-abinitio-v1.0"), *cl, *al, g.line("[magres_old]"), g.rep(na, atom), g.line("[/magres_old]"))
    if g.symbolic:
        g.assume(na.t > 0)
    tot = total(g.add(na, -1)) if g.symbolic or na else None
    return Case(parse_magres_file, [f], expect=g.D(cv, av, g.kv("total_shielding", tot),
                                                   g.kv("atom_info", g.D(g.rep(na, info)))))
