"""C16: binary electron-phonon and potential files."""
from castep_outputs.bin_parsers.cst_esp_file_parser import parse_cst_esp_file
from castep_outputs.bin_parsers.epme_bin_parser import parse_epme_bin_file
from pyvc.contract import Case, contract

from .common import *


def one(g, name, *idx, **kw):
    return g.rec(g.ints(g.i4(name, *idx, **kw)))


def vecs(g, name, *idx, **kw):
    """A record of any number of floats, and its value."""
    n = g.count("n." + name, *idx)
    return g.rec(g.doubles(*g.rep(n, lambda j: [g.f8(name, *idx, j)]))), g.T(*g.rep(n, lambda j: [g.f8(name, *idx, j)]))


def cvecs(g, name, *idx):
    n = g.count("n." + name, *idx)
    re, im = (lambda j: g.f8(name + ".re", *idx, j)), (lambda j: g.f8(name + ".im", *idx, j))
    return (g.rec(g.doubles(*g.rep(n, lambda j: [re(j), im(j)]))), g.T(*g.rep(n, lambda j: [g.cplx(re(j), im(j))])))


def species(g, i):
    return g.fld(SPEC, "sp", i), g.cat(g.fld(SPEC, "sp", i), g.fld(WS0, "pad", i))


def epme(g, case="good", spins=None):
    ni = g.count("ni")
    ns = g.count("ns", lo=1) if spins is None else spins
    np_ = g.count("np")
    nb = g.count("nb")
    nf = g.count("nf")
    ek, ep = np_, np_
    nb2 = nb
    if case == "pairs":
        ep = g.count("np2")
        g.assume(g.lt(np_, ep))
    if case == "bands":
        nb2 = g.count("nbx")
        g.assume(g.lt(nb, nb2))
    total = g.mul(g.mul(ns, np_), 2)
    g.distinct(ni, lambda i: g.T(g.fld(SPEC, "sp", i), g.i4("ion", i)))
    g.distinct(total, lambda i: g.T(g.i4("spin", i), g.i4("kpt", i)))
    head = {"atom": b"ATOM", "kpoint": b"KPOINT", "coupling": b"EPCOUPLING"}
    if case in head:
        head[case] = b"OTHER"

    def atom(i):
        return [*one(g, "ion", i), *g.rec(g.ascii(species(g, i)[1])), *g.rec(g.doubles(*[g.f8("pos", i, c) for c in range(3)]))]

    def kpoint(i):
        return [*one(g, "spin", i), *one(g, "kpt", i), *one(g, "nbk", i), *one(g, "minb", i), *vecs(g, "eig", i)[0],
                *vecs(g, "vel", i)[0]]

    def phonon(i):
        return [*one(g, "q1", i), *one(g, "q2", i), *one(g, "q3", i), *g.rec(g.ints(g.i4("ka", i), g.i4("kb", i))),
                *vecs(g, "freq", i)[0], *cvecs(g, "mode", i)[0], *cvecs(g, "mat", i)[0]]
    f = g.binfile(
        g.rec(g.ascii(g.fld(LABEL, "file type"))), one(g, "version"), g.rec(b"HEADER"), g.rec(g.ints(ns)),
        g.rec(g.doubles(g.f8("fermi"))),
        g.rec(head["atom"]), g.rec(g.ints(ni)), g.rec(g.doubles(*[g.f8("cell", c) for c in range(9)])),
        g.rep(ni, atom),
        g.rec(head["kpoint"]), g.rec(g.ints(g.mul(np_, 2))), g.rec(g.ints(nb)), g.rep(total, kpoint),
        g.rec(head["coupling"]), g.rec(g.ints(ep)), g.rec(g.ints(g.mul(nb2, nb2))), g.rep(ep, phonon))
    expect = g.D(
        g.kv("version", g.i4("version")), g.kv("n_spins", ns), g.kv("fermi_energy", g.f8("fermi")), g.kv("n_ions", ni),
        g.kv("real_lattice", g.T(*[g.f8("cell", c) for c in range(9)])),
        g.kv("ions", g.D(g.rep(ni, lambda i: [g.kv(g.T(g.fld(SPEC, "sp", i), g.i4("ion", i)),
                                                   g.T(*[g.f8("pos", i, c) for c in range(3)]))]))),
        g.kv("n_kpoint_pairs", np_), g.kv("n_bands", nb),
        g.kv("kpoints", g.D(g.rep(total, lambda i: [g.kv(g.T(g.i4("spin", i), g.i4("kpt", i)), g.D(
            g.kv("n_bands", g.i4("nbk", i)), g.kv("min_band", g.i4("minb", i)), g.kv("eigenvalues", vecs(g, "eig", i)[1]),
            g.kv("velocities", vecs(g, "vel", i)[1])))]))),
        g.kv("phonons", g.L(g.rep(np_, lambda i: [g.D(
            g.kv("kpts", g.T(g.i4("ka", i), g.i4("kb", i))), g.kv("frequencies", vecs(g, "freq", i)[1]),
            g.kv("modes", cvecs(g, "mode", i)[1]), g.kv("matrix_elements", cvecs(g, "mat", i)[1]))]))))
    return f, expect


@contract("C16", variants=[dict(spins=s) for s in (1, 2, None)])
def epme_bin(g, spins):
    """Every section's records are consumed as its dimensions say, each under its own k-point, ion and pair."""
    f, expect = epme(g, spins=spins)
    return Case(parse_epme_bin_file, [f], expect=expect)


@contract("C16", variants=[dict(case=c) for c in ("atom", "kpoint", "coupling", "pairs", "bands")])
def epme_bin_refused(g, case):
    """Wrong section names and dimensions that do not agree are errors."""
    f, expect = epme(g, case, 1)
    return Case(parse_epme_bin_file, [f], raises=(ValueError,))


@contract("C16", variants=[dict(spins=s, mgga=m) for s in (1, 2) for m in (False, True)])
def cst_esp(g, spins, mgga):
    """Every record goes to its grid position; a second volume is the meta-GGA potential."""
    nx, ny, nz = g.count("nx", lo=1), g.count("ny", lo=1), g.count("nz")

    def rows(name):
        return g.rep(nx, lambda x: g.rep(ny, lambda y: g.rec(g.bcat(
            g.ints(g.add(x, 1), g.add(y, 1)),
            g.doubles(*g.rep(nz, lambda z: [g.f8(name + ".re", x, y, z), g.f8(name + ".im", x, y, z)]))))))

    def vol(name):
        return g.L(g.rep(nx, lambda x: [g.L(g.rep(ny, lambda y: [g.T(*g.rep(nz, lambda z: [
            g.cplx(g.f8(name + ".re", x, y, z), g.f8(name + ".im", x, y, z))]))]))]))
    f = g.binfile(g.rec(g.ints(spins)), g.rec(g.ints(nx, ny, nz)), rows("esp"), rows("mgga") if mgga else [])
    return Case(parse_cst_esp_file, [f], expect=g.D(
        g.kv("n_spins", spins), g.kv("grid", g.T(nx, ny, nz)), g.kv("esp", vol("esp")),
        *([g.kv("mgga", vol("mgga"))] if mgga else [])))
