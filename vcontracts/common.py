"""Pieces of documents shared by the contracts."""
from pyvc.doc import *
from pyvc.rx import col


def fields(g, lex, name, *idx, n=3):
    return [g.fld(lex, name, *idx, r) for r in range(n)]


def spaced(g, fs):
    out = []
    for f in fs:
        out += [g.sp, f]
    return out


def flush(g, fs):
    """The fields of a line, which may begin in the first column."""
    return [g.sp0, *spaced(g, fs)[1:]]


def vec(g, lex, name, *idx, n=3):
    """(line parts, expected floats) of n blank-separated fields"""
    fs = fields(g, lex, name, *idx, n=n)
    return spaced(g, fs), g.T(*[g.flt(f) for f in fs])


def cell_rows(g, name="cell"):
    lines, vals = [], []
    for r in range(3):
        fs = fields(g, FLT, name, r)
        p, v = flush(g, fs), g.T(*[g.flt(f) for f in fs])
        lines.append(g.line(*p))
        vals.append(v)
    return lines, g.L(*vals)


def frac_coords(g, na, labelled=True):
    """(lines, expected coords) of a fractional coordinate table with na atoms"""
    def row(a):
        return [g.line(g.sp0, g.fld(INT, "cidx", a), *spaced(g, fields(g, FLT, "cpos", a)), g.sp,
                       g.fld(SPEC, "cspec", a), g.sp, g.fld(UFLT, "cmass", a))]
    def colm(f):
        return g.rep(na, lambda a: [f(a)])
    exp = g.D(g.kv("index", g.T(colm(lambda a: g.int(g.fld(INT, "cidx", a))))),
              g.kv("u", g.T(colm(lambda a: g.flt(g.fld(FLT, "cpos", a, 0))))),
              g.kv("v", g.T(colm(lambda a: g.flt(g.fld(FLT, "cpos", a, 1))))),
              g.kv("w", g.T(colm(lambda a: g.flt(g.fld(FLT, "cpos", a, 2))))),
              g.kv("spec", g.L(colm(lambda a: g.fld(SPEC, "cspec", a)))),
              g.kv("mass", g.T(colm(lambda a: g.flt(g.fld(UFLT, "cmass", a))))))
    return g.rep(na, row), exp


def column(g, n, f):
    return g.rep(n, lambda i: [f(i)])
