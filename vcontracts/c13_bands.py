"""C13: .bands and .phonon files."""
from pyvc.rx import col
from castep_outputs.parsers.bands_file_parser import parse_bands_file
from castep_outputs.parsers.phonon_file_parser import parse_phonon_file
from pyvc.contract import Case, contract
from pyvc.doc import *


def vec(g, lex, name, *idx, n=3):
    """(line parts, expected floats) of n blank-separated fields"""
    fs = [g.fld(lex, name, *idx, r) for r in range(n)]
    parts = []
    for f in fs:
        parts += [g.sp, f]
    return parts, g.T(*[g.flt(f) for f in fs])


@contract("C13", variants=[dict(spin=1), dict(spin=2)])
def bands(g, spin):
    nk = g.count("nk", lo=0)
    nb = g.count("nb", lo=0)
    nel = g.fld(UNUM, "nel")
    ef = g.fld(FLT, "ef")
    head = [
        g.line("Number of k-points", g.sp, g.num(nk)),
        g.line("Number of spin components ", str(spin)),
        g.line("Number of electrons", g.sp, nel),
        g.line("Number of eigenvalues", g.sp, g.num(nb)),
        g.line("Fermi energy (in atomic units)", g.sp, ef),
        g.line("Unit cell vectors")]
    cell = []
    for r in range(3):
        p, v = vec(g, FLT, "cell", r)
        head.append(g.line(*p))
        cell.append(v)

    def kpt(i):
        q, _ = vec(g, FLT, "q", i)
        b = [g.line("K-point", g.sp, g.fld(INT, "ik", i), *q, g.sp, g.fld(FLT, "w", i)),
             g.line("Spin component 1"),
             g.rep(nb, lambda j: [g.line(g.sp0, g.fld(FLT, "e1", i, j))])]
        if spin == 2:
            b += [g.line("Spin component 2"), g.rep(nb, lambda j: [g.line(g.sp0, g.fld(FLT, "e2", i, j))])]
        return b

    def exp(i):
        _, q = vec(g, FLT, "q", i)
        e1 = g.T(g.rep(nb, lambda j: g.flt(g.fld(FLT, "e1", i, j))))
        d = [g.kv("qpt", q), g.kv("weight", g.flt(g.fld(FLT, "w", i))), g.kv("spin_comp", spin == 2)]
        if spin == 1:
            d.append(g.kv("band", e1))
        else:
            d += [g.kv("band_up", e1),
                  g.kv("band_down", g.T(g.rep(nb, lambda j: g.flt(g.fld(FLT, "e2", i, j)))))]
        return [g.D(*d)]
    f = g.file(*head, g.rep(nk, kpt))
    return Case(parse_bands_file, [f], expect=g.D(
        g.kv("bands", g.L(g.rep(nk, exp))), g.kv("k-points", nk), g.kv("spin components", spin),
        g.kv("electrons", g.trunc(g.flt(nel))), g.kv("eigenvalues", nb), g.kv("Fermi energy", g.T(g.flt(ef))),
        g.kv("unit_cell", g.L(*cell)), g.kv("coords", g.D())))


@contract("C13", variants=[dict(ni=1, ir=0, d=False), dict(ni=2, ir=1, d=True), dict(ni=1, ir=2, d=False),
                           dict(ni=2, ir=3, d=True), dict(ni=3, ir=0, d=False)])
def phonon(g, ni, ir, d):
    nq = g.count("nq", lo=1)
    nm = 3 * ni
    C15, C20 = col(FLT, 15), col(FLT, 14)
    head = [g.line(" BEGIN header"),
            g.line(" Number of ions", g.sp, str(ni)),
            g.line(" Number of branches", g.sp, str(nm)),
            g.line(" Number of wavevectors", g.sp, g.num(nq)),
            g.line(" Frequencies in         cm-1"),
            g.line(" IR intensities in      (D/A)**2/amu"),
            g.line(" Raman activities in    A**4 amu**(-1)"),
            g.line(" Unit cell vectors (A)")]
    cell = []
    for r in range(3):
        p, v = vec(g, FLT, "cell", r)
        head.append(g.line(*p))
        cell.append(v)
    head.append(g.line(" Fractional Co-ordinates"))
    cols = dict(index=[], u=[], v=[], w=[], spec=[], mass=[])
    for a in range(ni):
        f = [g.fld(FLT, "pos", a, r) for r in range(3)]
        m, s = g.fld(UFLT, "mass", a), g.fld(SPEC, "spec", a)
        head.append(g.line(g.sp0, str(a + 1), g.sp, f[0], g.sp, f[1], g.sp, f[2], g.sp, s, g.sp, m))
        cols["index"].append(a + 1)
        for k, x in zip("uvw", f):
            cols[k].append(g.flt(x))
        cols["spec"].append(s)
        cols["mass"].append(g.flt(m))
    head.append(g.line(" END header"))

    def fields(i, m):
        return g.fld(C15, "ev", i, m), g.fld(C15, "ir", i, m), g.fld(C15, "raman", i, m)

    def qpt(i):
        q, _ = vec(g, FLT, "q", i)
        dr, _ = vec(g, FLT, "dir", i)
        out = [g.line("     q-pt=", g.sp, g.fld(INT, "iq", i), *q, g.sp, g.fld(FLT, "w", i), *(dr if d else []))]
        for m in range(nm):
            e, x, y = fields(i, m)
            out.append(g.line(f"{m + 1:8d}", e, " " * 8, x if ir & 1 else " " * 15, " " * 9, y if ir & 2 else " " * 15,
                              " " * 4))
        out.append(g.line("                        Phonon Eigenvectors"))
        out.append(g.line("Mode Ion                X                       Y                 Z"))
        for m in range(nm):
            for a in range(ni):
                ps = []
                for r in range(6):
                    ps += [g.sp, g.fld(FLT, "vec", i, m, a, r)]
                out.append(g.line(f"{m + 1:4d}{a + 1:4d}", *ps))
        return out

    def exp(i):
        _, q = vec(g, FLT, "q", i)
        _, dr = vec(g, FLT, "dir", i)
        fs = [fields(i, m) for m in range(nm)]
        kv = [g.kv("qpt", q), g.kv("weight", g.flt(g.fld(FLT, "w", i))),
              g.kv("eigenvalues", g.L(*[g.flt(f[0]) for f in fs])),
              g.kv("eigenvectors", g.L(*[g.T(*[g.cplx(g.flt(g.fld(FLT, "vec", i, m, a, r)),
                                                      g.flt(g.fld(FLT, "vec", i, m, a, r + 1))) for r in (0, 2, 4)])
                                         for m in range(nm) for a in range(ni)]))]
        if d:
            kv.append(g.kv("dir", dr))
        if ir & 1:
            kv.append(g.kv("ir_intensity", g.L(*[g.flt(f[1]) for f in fs])))
        if ir & 2:
            kv.append(g.kv("raman_intensity", g.L(*[g.flt(f[2]) for f in fs])))
        return [g.D(*kv)]
    exp_d = [g.kv("ions", ni), g.kv("branches", nm), g.kv("wavevectors", nq), g.kv("unit_cell", g.L(*cell)),
             g.kv("coords", g.D(*[g.kv(k, g.L(*v) if k == "spec" else g.T(*v)) for k, v in cols.items()]))]
    qs = g.rep(nq, exp)
    exp_d.append(g.kv("qpts", g.L(qs)))
    return Case(parse_phonon_file, [g.file(*head, g.rep(nq, qpt))], expect=g.D(*exp_d))
