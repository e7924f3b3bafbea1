"""String operations on symbolic strings (literal pieces and lexical atoms)."""
from __future__ import annotations
import itertools
import z3
from . import rx
from .rx import Lex, Fmt, Mixed, SPACE
from .values import *

_ctr = itertools.count(1)

INT_LANG = Lex("INT_LANG", r"\s*[+-]?\d+\s*")
FLT_LANG = Lex("FLT_LANG", r"\s*[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?\s*")
# fractions.Fraction's own decimal grammar is a superset of FLT_LANG minus lone dots

FLT = z3.Function("FLT", StrS, FltS)
INTOF = z3.Function("INTOF", StrS, IntS)
FLTI = z3.Function("FLTI", IntS, FltS)       # float(int)
FRAC = z3.Function("FRAC", StrS, FltS)       # float(Fraction("a/b"))
LOWER = z3.Function("LOWER", StrS, StrS)
UPPER = z3.Function("UPPER", StrS, StrS)
TITLE = z3.Function("TITLE", StrS, StrS)
CAPITALIZE = z3.Function("CAPITALIZE", StrS, StrS)
TRUNC = z3.Function("TRUNC", FltS, IntS)
CPLX = z3.Function("CPLX", FltS, FltS, ValS)


def blank_atom():
    return Atom(z3.String(f"blank!{next(_ctr)}"), rx.WS0)


def units(s):
    """(units, atoms) where atoms[i] is the Atom behind unit i or None"""
    us, ats = [], []
    for p in pieces_of(s):
        if isinstance(p, str):
            us += list(p)
            ats += [None] * len(p)
        else:
            us.append(p.cls)
            ats.append(p)
    return us, ats


def from_units(us, ats, i, j):
    return mkstr([ats[k] if ats[k] is not None else us[k] for k in range(i, j)])


def str_term(s):
    """z3 string term of a (stripped where needed) string value"""
    ps = pieces_of(s)
    if not ps:
        return z3.StringVal("")
    ts = [z3.StringVal(p) if isinstance(p, str) else p.t for p in ps]
    return ts[0] if len(ts) == 1 else z3.Concat(*ts)


def _is_blank_piece(p):
    return p.isspace() if isinstance(p, str) else p.cls.blank


STRIP = z3.Function("STRIP", StrS, StrS)


def core_atom(p):
    """The text of a padded column without its padding."""
    if p.num is not None:
        return Atom(STRIP(p.t), p.cls.core, p.num)
    return Atom(STRIP(p.t), p.cls.core)


def strip(s, chars=None, left=True, right=True):
    if isinstance(s, str):
        if left and right:
            return s.strip(chars)
        return s.lstrip(chars) if left else s.rstrip(chars)
    cs = SPACE if chars is None else frozenset(chars)
    ps = list(s.pieces)

    def trim(ps, lit, first):
        while ps:
            p = ps[0] if first else ps[-1]
            if isinstance(p, str):
                q = lit(p)
                if q:
                    ps[0 if first else -1] = q
                    return
                ps.pop(0 if first else -1)
            else:
                if p.cls.chars <= cs:
                    ps.pop(0 if first else -1)
                    continue
                edge = p.cls.first if first else p.cls.last
                if edge & cs and p.cls.core is not None and chars is None:
                    ps[0 if first else -1] = core_atom(p)
                    return
                if edge & cs:
                    raise Unsupported(f"strip of field {p.cls.name}")
                if p.cls.nullable:
                    raise Unsupported("strip: empty-able field at the end")
                return
    cj = "".join(cs)
    if left:
        trim(ps, lambda p: p.lstrip(cj), True)
    if right:
        trim(ps, lambda p: p.rstrip(cj), False)
    return mkstr(ps)


def split_ws(s, maxsplit=-1):
    if isinstance(s, str):
        return s.split(None, maxsplit)
    if maxsplit is not None and maxsplit >= 0:
        return _split_ws_max(s, maxsplit)
    out, cur = [], []
    sep = True

    for p in s.pieces:
        if isinstance(p, str):
            buf = ""
            for ch in p:
                if ch.isspace():
                    if buf:
                        cur.append(buf)
                        buf = ""
                    if cur:
                        out.append(mkstr(cur))
                        cur = []
                else:
                    buf += ch
            if buf:
                cur.append(buf)
        elif p.cls.core is not None and (p.cls.first & SPACE or p.cls.last & SPACE):
            raise Unsupported(f"split of column {p.cls.name}")
        elif p.cls.blank:
            if p.cls.nullable:
                # separates only when something is guaranteed around it
                if cur:
                    cur.append(p)
            else:
                if cur:
                    out.append(mkstr(cur))
                    cur = []
        else:
            if p.cls.chars & SPACE:
                raise Unsupported(f"split of field {p.cls.name} containing blanks")
            if p.cls.nullable and not cur:
                raise Unsupported("split: empty-able field")
            cur.append(p)
    if cur:
        out.append(mkstr(cur))
    # empty-able blanks inside a word make the split ambiguous, at its end they are harmless
    res = []
    for w in out:
        if isinstance(w, str):
            res.append(w)
            continue
        ps = list(w.pieces)
        while ps and not isinstance(ps[-1], str) and ps[-1].cls.blank:
            ps.pop()
        if any(not isinstance(p, str) and p.cls.blank for p in ps):
            raise Unsupported("split: field separation not guaranteed")
        res.append(mkstr(ps))
    return res


def _split_ws_max(s, n):
    s = strip(s, None, True, False)
    out = []
    us, ats = units(s)
    i = 0
    while i < len(us):
        if len(out) == n:
            out.append(from_units(us, ats, i, len(us)))     # CPython keeps the rest's trailing blanks
            return out
        j = i
        while j < len(us) and not _unit_blank(us[j]):
            if not isinstance(us[j], str) and us[j].chars & SPACE:
                raise Unsupported("split of field containing blanks")
            j += 1
        if j < len(us) and not isinstance(us[j], str) and us[j].nullable:
            raise Unsupported("split: field separation not guaranteed")
        out.append(from_units(us, ats, i, j))
        while j < len(us) and _unit_blank(us[j]):
            j += 1
        i = j
    return out


def _unit_blank(u):
    return u.isspace() if isinstance(u, str) else u.blank


def split_sep(s, sep, maxsplit=-1, right=False):
    if isinstance(s, str):
        return s.rsplit(sep, maxsplit) if right else s.split(sep, maxsplit)
    us, ats = units(s)
    for u in us:
        if not isinstance(u, str) and set(sep) & u.chars:
            raise Unsupported(f"split({sep!r}) of field {u.name}")
    n = len(sep)
    cuts = []
    i = 0
    while i + n <= len(us):
        if all(us[i + k] == sep[k] for k in range(n)):
            cuts.append(i)
            i += n
        else:
            i += 1
    if maxsplit is not None and maxsplit >= 0:
        cuts = cuts[len(cuts) - maxsplit:] if right and maxsplit else cuts[:maxsplit]
    out, a = [], 0
    for c in cuts:
        out.append(from_units(us, ats, a, c))
        a = c + n
    out.append(from_units(us, ats, a, len(us)))
    return out


def fmt_of(s):
    us, ats = units(s)
    return Fmt(us), us, ats


class Poison(Sym):
    """A match group whose text depends on the drawn fields in a way not represented; unreadable."""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


def span_value(sp_, us, ats):
    if sp_ is None:
        return None
    if sp_[0] == "mixed":
        return Poison(sp_[1])
    if sp_ == ("empty",):
        return ""
    if sp_ == ("blank",):
        return mkstr([blank_atom()])
    i, j, lead, trail = sp_
    v = [ats[k] if ats[k] is not None else us[k] for k in range(i, j)]
    return mkstr(([blank_atom()] if lead else []) + v + ([blank_atom()] if trail else []))


def re_match(pattern, flags, mode, s):
    """RMatch or None for a decided match of pattern on s (mode match/search/fullmatch)."""
    fmt, us, ats = fmt_of(s)
    spans = rx.decide(pattern, flags, mode, fmt)
    if spans is None:
        return None
    return [span_value(x, us, ats) for x in spans], spans


def _prevs(us, start):
    """Representative previous characters at unit boundary start."""
    if start == 0:
        return [None]
    u = us[start - 1]
    if isinstance(u, str):
        return [u]
    ps = set()
    for c in u.last:
        ps.add(c)
    reps = {}
    for c in ps:
        reps.setdefault((c in rx.WORD, c in rx.DIGITS, c in SPACE, c if c in ".+-" else ""), c)
    out = list(reps.values())
    if u.nullable:
        out += _prevs(us, start - 1)
    return out


def re_iter(pattern, flags, s):
    """All successive matches: list of span lists."""
    fmt, us, ats = fmt_of(s)
    pos = 0
    out = []
    starts = [(0, None)]
    guard = 0
    while True:
        guard += 1
        if guard > 400:
            raise Unsupported("findall does not progress")
        res = []
        for st, pv in starts:
            for prev in ([pv] if pv is not None else _prevs(us, st)):
                res.append(rx.decide(pattern, flags, "search", fmt, st, prev))
        if any(r != res[0] for r in res):
            raise Mixed("findall: outcome depends on the text before")
        if res[0] is None:
            return out, us, ats
        spans = res[0]
        for x in spans:
            if x is not None and x[0] == "mixed":
                raise Mixed(x[1])
        out.append(spans)
        whole = spans[0]
        if len(whole) == 1:
            raise Unsupported("findall: empty match")
        i, j, lead, trail = whole
        if j >= len(us):
            return out, us, ats
        starts = [(j, None)]
        if trail and _unit_blank(us[j - 1]) is False and j < len(us) and _unit_blank(us[j]):
            k = j
            while k < len(us) and _unit_blank(us[k]):
                k += 1
            starts.append((k, " "))


def contains(s, sub):
    """Whether sub (str) occurs in s; bool or raises Mixed."""
    import re
    if isinstance(s, str):
        return sub in s
    if sub == "":
        return True
    fmt, us, ats = fmt_of(s)
    r = rx.boolmatch(re.escape(sub), 0, "search", fmt)
    if r == "mixed":
        raise Mixed(f"{sub!r} in part of the language")
    return r == "all"


def startswith(s, pre):
    import re
    fmt, us, ats = fmt_of(s)
    r = rx.boolmatch(re.escape(pre), 0, "match", fmt)
    if r == "mixed":
        raise Mixed(f"startswith {pre!r}")
    return r == "all"


def endswith(s, suf):
    us, ats = units(s)
    k = len(us)
    for ch in reversed(suf):
        k -= 1
        if k < 0:
            return False
        u = us[k]
        if isinstance(u, str):
            if u != ch:
                return False
        else:
            if ch not in u.last and not u.nullable:
                return False
            raise Mixed("endswith inside field")
    return True


def truth(s):
    if isinstance(s, str):
        return bool(s)
    if any(isinstance(p, str) or not p.cls.nullable for p in s.pieces):
        return True
    raise Mixed("truth of possibly empty text")


def cancel(a, b):
    """a and b without their common first and last pieces (a == b exactly when the remainders are equal)."""
    pa, pb = list(pieces_of(a)), list(pieces_of(b))

    def same(x, y):
        if isinstance(x, str) or isinstance(y, str):
            return isinstance(x, str) and isinstance(y, str) and x == y
        return x.t.eq(y.t)
    while pa and pb and same(pa[0], pb[0]):
        pa.pop(0)
        pb.pop(0)
    while pa and pb and same(pa[-1], pb[-1]):
        pa.pop()
        pb.pop()
    return mkstr(pa), mkstr(pb)


def eq(a, b):
    """True / False / z3 Bool for string equality."""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    pa, pb = pieces_of(a), pieces_of(b)
    if len(pa) == len(pb) and all(
            (isinstance(x, str) and x == y) if isinstance(x, str) or isinstance(y, str)
            else x.t.eq(y.t) for x, y in zip(pa, pb)):
        return True
    ra, rb = cancel(a, b)
    if isinstance(ra, str) and isinstance(rb, str):
        return ra == rb
    if disjoint(ra, rb):
        return False
    return str_term(ra) == str_term(rb)


def disjoint(a, b):
    """True when the two string languages certainly share no string."""
    fa, fb = fmt_of(a)[0], fmt_of(b)[0]
    seen = {(("B", 0), ("B", 0))}
    work = list(seen)
    while work:
        p, q = work.pop()
        if fa.final(p) and fb.final(q):
            return False
        for cs, p2 in fa.outs(p):
            for ds, q2 in fb.outs(q):
                if cs & ds:
                    k = (p2, q2)
                    if k not in seen:
                        seen.add(k)
                        work.append(k)
    return True


def lang_within(s, lex):
    """Every string of s belongs to lex."""
    fmt = fmt_of(s)[0]
    seen = {(("B", 0), 0)}
    work = list(seen)
    while work:
        q, b = work.pop()
        if fmt.final(q) and (b is None or b not in lex.acc):
            return False
        for cs, q2 in fmt.outs(q):
            for c in cs:
                nb = None
                if b is not None:
                    for u, ds in lex.trans.get(b, {}).items():
                        if c in ds:
                            nb = u
                            break
                k = (q2, nb)
                if k not in seen:
                    seen.add(k)
                    work.append(k)
    return True


def lang_disjoint_lex(s, lex):
    return disjoint(s, SStr([Atom(z3.String("x!"), lex)]))


def to_int(s):
    if isinstance(s, str):
        try:
            return int(s)
        except ValueError as e:
            raise PyRaise(ValueError, *e.args)
    s2 = strip(s)
    if isinstance(s2, str):
        return to_int(s2)
    if not lang_within(s2, INT_LANG):
        if lang_disjoint_lex(s2, INT_LANG):
            raise PyRaise(ValueError, "invalid literal for int()")
        raise Mixed(f"int() of {s2}")
    if len(s2.pieces) == 1 and s2.pieces[0].num is not None and not isinstance(s2.pieces[0].num, SFlt):
        return s2.pieces[0].num
    return SInt(INTOF(str_term(s2)))


def to_float(s):
    if isinstance(s, str):
        try:
            return float(s)
        except ValueError as e:
            raise PyRaise(ValueError, *e.args)
    s2 = strip(s)
    if isinstance(s2, str):
        return to_float(s2)
    if not lang_within(s2, FLT_LANG):
        if lang_disjoint_lex(s2, FLT_LANG):
            raise PyRaise(ValueError, "could not convert string to float")
        raise Mixed(f"float() of {s2}")
    if len(s2.pieces) == 1 and s2.pieces[0].num is not None and not isinstance(s2.pieces[0].num, SFlt):
        return SFlt(FLTI(zint(s2.pieces[0].num)))      # integers below 2**53
    return SFlt(FLT(str_term(s2)))


RAT_LANG = Lex("RAT_LANG", r"[+-]?\d+/\d*[1-9]\d*")


def to_fraction_float(s):
    """float(Fraction(s))"""
    if isinstance(s, str):
        from fractions import Fraction
        try:
            return float(Fraction(s))
        except ValueError as e:
            raise PyRaise(ValueError, *e.args)
    s2 = strip(s)
    if isinstance(s2, str):
        return to_fraction_float(s2)
    if lang_within(s2, FLT_LANG):
        return SFlt(FLT(str_term(s2)))
    if lang_within(s2, RAT_LANG):
        return SFlt(FRAC(str_term(s2)))
    if lang_disjoint_lex(s2, FLT_LANG) and lang_disjoint_lex(s2, Lex("RAT_ANY", r"[+-]?\d+/\d+")):
        raise PyRaise(ValueError, "Invalid literal for Fraction")
    raise Mixed(f"Fraction() of {s2}")


def casemap(s, how):
    if isinstance(s, str):
        return getattr(s, how)()
    out = []
    if how in ("title", "capitalize"):
        if not any(c.isalpha() for p in s.pieces for c in (p if isinstance(p, str) else p.cls.chars)):
            return s
        f = TITLE if how == "title" else CAPITALIZE
        return mkstr([Atom(f(str_term(s)), _title_class(fmt_of(s)[0], how))])
    for p in s.pieces:
        if isinstance(p, str):
            out.append(getattr(p, how)())
        else:
            ch = p.cls.chars
            bad = any(c != getattr(c, how)() for c in ch)
            if not bad:
                out.append(p)
            else:
                f = LOWER if how in ("lower", "casefold") else UPPER
                nm = f"{how}({p.cls.name})"
                pat = p.cls.pattern
                cls = _case_class(p.cls, how, nm)
                out.append(Atom(f(p.t), cls))
    return mkstr(out)


_titles = {}


def _title_class(fmt, how):
    """The language of str.title()/capitalize() of the members of a format."""
    nm = f"{how}({'|'.join(fmt.key())})"
    if nm in _titles:
        return _titles[nm]

    def image(c, prev):
        d = c.lower() if prev else c.upper()
        return d if len(d) == 1 else c
    start = frozenset([(("B", 0), False)])
    ids = {start: 0}
    work = [start]
    trans, acc = {}, set()
    while work:
        S = work.pop()
        if any(fmt.final(q) for q, _ in S):
            acc.add(ids[S])
        row = {}
        for q, prev in S:
            for cs, q2 in fmt.outs(q):
                for c in cs:
                    row.setdefault(image(c, prev), set()).add((q2, c.isalpha() if how == "title" else True))
        r2 = {}
        for d, ts in row.items():
            T = frozenset(ts)
            if T not in ids:
                ids[T] = len(ids)
                work.append(T)
            r2.setdefault(ids[T], set()).add(d)
        trans[ids[S]] = {t: frozenset(c) for t, c in r2.items()}
    o = _titles[nm] = _lex_of(nm, trans, acc)
    return o


def _lex_of(nm, trans, acc):
    o = object.__new__(Lex)
    o.name, o.pattern, o.sample, o.kind = nm, None, None, None
    o.fixed = o.core = o.width = None
    o.trans, o.acc = trans, acc
    o.nullable = 0 in acc
    o.first = frozenset().union(*trans[0].values()) if trans.get(0) else frozenset()
    o.chars = frozenset().union(*[c for r in trans.values() for c in r.values()] or [frozenset()])
    o.last = frozenset().union(*[c for r in trans.values() for t, c in r.items() if t in acc] or [frozenset()])
    o.blank = o.chars <= SPACE
    return o


def _case_class(cls, how, nm):
    if nm in Lex._all:
        return Lex._all[nm]
    fn = (lambda c: c.lower()) if how in ("lower", "casefold") else (lambda c: c.upper())
    # image of a DFA under a letter map may be nondeterministic; determinise by subset construction
    start = frozenset([0])
    ids = {start: 0}
    work = [start]
    trans, acc = {}, set()
    while work:
        S = work.pop()
        if S & cls.acc:
            acc.add(ids[S])
        row = {}
        for s in S:
            for t, cs in cls.trans.get(s, {}).items():
                for c in cs:
                    d = fn(c)
                    if len(d) == 1:
                        row.setdefault(d, set()).add(t)
        r2 = {}
        for d, ts in row.items():
            T = frozenset(ts)
            if T not in ids:
                ids[T] = len(ids)
                work.append(T)
            r2.setdefault(ids[T], set()).add(d)
        trans[ids[S]] = {t: frozenset(c) for t, c in r2.items()}
    o = _lex_of(nm, trans, acc)
    o.kind = cls.kind
    Lex._all[nm] = o
    return o


def replace(s, old, new, count=-1):
    if isinstance(s, str) and isinstance(new, str):
        return s.replace(old, new, count)
    if isinstance(s, str):
        raise Unsupported("replace by symbolic")
    for p in s.pieces:
        if not isinstance(p, str) and (set(old) & p.cls.chars):
            raise Unsupported(f"replace inside field {p.cls.name}")
    if len(old) > 1 and any(not isinstance(p, str) and p.cls.nullable for p in s.pieces):
        raise Unsupported("replace across empty-able field")
    if count != -1 and count is not None:
        raise Unsupported("replace count")
    return mkstr([p.replace(old, new) if isinstance(p, str) else p for p in s.pieces])


def length(s):
    n = 0
    for p in pieces_of(s):
        if isinstance(p, str):
            n += len(p)
        elif p.cls.width is not None:
            n += p.cls.width
        else:
            raise Unsupported("len of symbolic text")
    return n


def getslice(s, a, b):
    """s[a:b] for non-symbolic integer bounds, as far as fixed-width pieces allow."""
    us, ats = units(s)
    n = len(us)
    if any(not isinstance(u, str) for u in us):
        def from_left(k):
            pos = 0
            for i, u in enumerate(us):
                if pos == k:
                    return i
                if pos > k:
                    raise Unsupported("slice cuts a column")
                if isinstance(u, str):
                    pos += 1
                elif u.width is not None:
                    pos += u.width
                else:
                    raise Unsupported("slice into variable-width text")
            if pos > k:
                raise Unsupported("slice cuts a column")
            return n

        def from_right(k):
            pos = 0
            for i in range(n, 0, -1):
                if pos == k:
                    return i
                if pos > k:
                    raise Unsupported("slice cuts a column")
                u = us[i - 1]
                if isinstance(u, str):
                    pos += 1
                elif u.width is not None:
                    pos += u.width
                else:
                    raise Unsupported("slice into variable-width text")
            return 0
    else:
        def from_left(k):
            return min(k, n)

        def from_right(k):
            return max(n - k, 0)
    i = 0 if a is None else (from_left(a) if a >= 0 else from_right(-a))
    j = n if b is None else (from_left(b) if b >= 0 else from_right(-b))
    return from_units(us, ats, i, max(i, j))
