"""Deciding real regular expressions against printed-line languages, for all strings of the language.

A *format* is a sequence of units: a literal character, or a lexical class (regular language).  The pattern is
compiled from CPython's own parse of it (``re._parser``) into a priority thread-list program (the leftmost-first
semantics of backtracking) and run on the product with the format automaton.  Group boundaries are recorded as
unit boundaries; a boundary inside a unit is exact only for blank units (recorded as a blank fragment).
"""
from __future__ import annotations
import re
from re import _parser as sp
from re import _constants as sc
from functools import lru_cache

from .values import Unsupported

ALPHABET = "\t\n" + "".join(chr(i) for i in range(32, 127)) + "\u00c5"
ALL = frozenset(ALPHABET)
DIGITS = frozenset("0123456789")
WORD = frozenset(c for c in ALPHABET if c.isalnum() or c == "_")
SPACE = frozenset(c for c in ALPHABET if c.isspace())


def _cat(c):
    return {sc.CATEGORY_DIGIT: DIGITS, sc.CATEGORY_NOT_DIGIT: ALL - DIGITS,
            sc.CATEGORY_SPACE: SPACE, sc.CATEGORY_NOT_SPACE: ALL - SPACE,
            sc.CATEGORY_WORD: WORD, sc.CATEGORY_NOT_WORD: ALL - WORD}[c]


def _fold(s, flags):
    if flags & re.IGNORECASE:
        return frozenset(c for c in ALPHABET if c in s or c.lower() in s or c.upper() in s)
    return frozenset(s)


def _inset(items, flags):
    neg = False
    s = set()
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            s.add(chr(av))
        elif op is sc.RANGE:
            s |= {c for c in ALPHABET if av[0] <= ord(c) <= av[1]}
        elif op is sc.CATEGORY:
            s |= _cat(av)
        else:
            raise Unsupported(f"regex set op {op}")
    s = _fold(frozenset(s) & ALL if not (flags & re.IGNORECASE) else s, flags)
    return (ALL - s) if neg else (s & ALL)


class Prog:
    """Instructions: (op, ...)"""

    def __init__(self, pattern, flags=0):
        self.code = []
        tree = sp.parse(pattern, flags)
        self.flags = tree.state.flags
        self.ngroups = tree.state.groups
        self.groupindex = dict(tree.state.groupdict)
        self.hascond = False
        self.emit(("save", 0))
        self.seq(tree, self.flags)
        self.emit(("save", 1))
        self.emit(("match",))
        self.start_anch = False
        self._dfa = {}

    def emit(self, ins):
        self.code.append(ins)
        return len(self.code) - 1

    def seq(self, items, flags):
        for op, av in items:
            self.node(op, av, flags)

    def single(self, p, flags):
        """charset of a one-character lookaround body, or None"""
        if len(p) != 1:
            return None
        op, av = p[0]
        if op is sc.LITERAL:
            return _fold({chr(av)}, flags)
        if op is sc.NOT_LITERAL:
            return ALL - _fold({chr(av)}, flags)
        if op is sc.IN:
            return _inset(av, flags)
        if op is sc.ANY:
            return ALL if flags & re.DOTALL else ALL - {"\n"}
        if op is sc.SUBPATTERN and av[0] is None:
            return self.single(av[3], (flags | av[1]) & ~av[2])
        if op is sc.BRANCH:
            sets = [self.single(b, flags) for b in av[1]]
            if all(s is not None for s in sets):
                return frozenset().union(*sets)
        return None

    def node(self, op, av, flags):
        if op is sc.LITERAL:
            self.emit(("char", _fold({chr(av)}, flags) & ALL))
        elif op is sc.NOT_LITERAL:
            self.emit(("char", ALL - _fold({chr(av)}, flags)))
        elif op is sc.ANY:
            self.emit(("char", ALL if flags & re.DOTALL else ALL - {"\n"}))
        elif op is sc.IN:
            self.emit(("char", _inset(av, flags)))
        elif op is sc.BRANCH:
            ends = []
            br = av[1]
            for n, b in enumerate(br):
                if n < len(br) - 1:
                    s = self.emit(None)
                    self.code[s] = ("split", s + 1, None)
                    self.seq(b, flags)
                    ends.append(self.emit(None))
                    self.code[s] = ("split", s + 1, len(self.code))
                else:
                    self.seq(b, flags)
            for e in ends:
                self.code[e] = ("jmp", len(self.code))
        elif op is sc.SUBPATTERN:
            g, add, rem, p = av
            nf = (flags | add) & ~rem
            if g is not None:
                self.emit(("save", 2 * g))
            self.seq(p, nf)
            if g is not None:
                self.emit(("save", 2 * g + 1))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            greedy = op is sc.MAX_REPEAT
            if lo > 400 or (hi is not sc.MAXREPEAT and hi > 400):
                raise Unsupported("large repeat")
            for _ in range(lo):
                self.seq(p, flags)
            if hi is sc.MAXREPEAT:
                s = self.emit(None)
                self.seq(p, flags)
                self.emit(("jmp", s))
                e = len(self.code)
                self.code[s] = ("split", s + 1, e) if greedy else ("split", e, s + 1)
            else:
                ss = []
                for _ in range(hi - lo):
                    ss.append(self.emit(None))
                    self.seq(p, flags)
                e = len(self.code)
                for s in ss:
                    self.code[s] = ("split", s + 1, e) if greedy else ("split", e, s + 1)
        elif op is sc.AT:
            self.emit(("at", av, bool(flags & re.MULTILINE)))
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, p = av
            s = self.single(p, flags)
            atend = False
            if s is None:
                # (?=\s|$) style
                if len(p) == 1 and p[0][0] is sc.BRANCH:
                    s = frozenset()
                    for b in p[0][1][1]:
                        if len(b) == 1 and b[0][0] is sc.AT and b[0][1] in (sc.AT_END, sc.AT_BEGINNING):
                            atend = True
                        else:
                            x = self.single(b, flags)
                            if x is None:
                                raise Unsupported("lookaround")
                            s |= x
                else:
                    raise Unsupported("lookaround")
            self.emit(("look", direction, op is sc.ASSERT_NOT, s & ALL, atend))
        elif op is sc.GROUPREF_EXISTS:
            g, yes, no = av
            self.hascond = True
            c = self.emit(None)
            self.seq(yes, flags)
            j = self.emit(None)
            self.code[c] = ("cond", g, c + 1, len(self.code))
            if no is not None:
                self.seq(no, flags)
            self.code[j] = ("jmp", len(self.code))
        else:
            raise Unsupported(f"regex node {op}")

    # ---- assertions, given previous char (None at start), next char (None at end), nlend: next is final \n
    def check(self, ins, prev, nxt, nlend):
        if ins[0] == "at":
            k = ins[1]
            if k is sc.AT_BEGINNING:
                return prev is None or (ins[2] and prev == "\n")
            if k is sc.AT_BEGINNING_STRING:
                return prev is None
            if k is sc.AT_END:
                return nxt is None or nlend or (ins[2] and nxt == "\n")
            if k is sc.AT_END_STRING:
                return nxt is None
            w = (prev is not None and prev in WORD) != (nxt is not None and nxt in WORD)
            if k is sc.AT_BOUNDARY:
                return w
            if k is sc.AT_NON_BOUNDARY:
                return not w
            raise Unsupported(f"at {k}")
        _, direction, neg, s, atend = ins
        c = nxt if direction > 0 else prev
        r = (c in s) if c is not None else atend
        if atend and direction > 0 and nlend:
            r = True
        return r != neg


@lru_cache(maxsize=4000)
def prog(pattern, flags=0):
    return Prog(pattern, flags)


# ------------------------------------------------------------------------------------------ languages
class Lex:
    """A lexical class: regular language given by a regular expression, as a DFA over ALPHABET."""
    _all = {}

    def __new__(cls, name, pattern=None, sample=None, kind=None, fixed=None, core=None):
        if name in cls._all:
            if pattern is not None and cls._all[name].pattern != pattern:
                raise ValueError(f"two lexical classes called {name}")
            return cls._all[name]
        o = object.__new__(cls)
        o.name, o.pattern, o.sample, o.kind = name, pattern, sample, kind
        o.fixed, o.core = fixed, core
        o._build()
        cls._all[name] = o
        return o

    def __repr__(self):
        return self.name

    def _widths(self):
        # constant length of all texts of the class, if there is one
        lens, todo = {0: 0}, [0]
        ok = True
        while todo and ok:
            q = todo.pop()
            for t in self.trans[q]:
                if t not in lens:
                    lens[t] = lens[q] + 1
                    todo.append(t)
                elif lens[t] != lens[q] + 1:
                    ok = False
        ws = {lens[q] for q in self.acc if q in lens} if ok else set()
        self.width = self.fixed if isinstance(self.fixed, int) else ws.pop() if len(ws) == 1 else None

    def _build(self):
        p = prog(self.pattern)

        def clo(pcs):
            out, seen = [], set()
            st = list(reversed(pcs))
            while st:
                pc = st.pop()
                if pc in seen:
                    continue
                seen.add(pc)
                i = p.code[pc]
                if i[0] == "save":
                    st.append(pc + 1)
                elif i[0] == "jmp":
                    st.append(i[1])
                elif i[0] == "split":
                    st.append(i[2])
                    st.append(i[1])
                elif i[0] in ("char", "match"):
                    out.append(pc)
                else:
                    raise Unsupported(f"lexical class op {i[0]}")
            return frozenset(out)
        start = clo([0])
        ids = {start: 0}
        work = [start]
        trans = {}
        acc = set()
        while work:
            s = work.pop()
            if any(p.code[pc][0] == "match" for pc in s):
                acc.add(ids[s])
            row = {}
            for c in ALPHABET:
                t = clo([pc + 1 for pc in s if p.code[pc][0] == "char" and c in p.code[pc][1]])
                if not t:
                    continue
                if t not in ids:
                    ids[t] = len(ids)
                    work.append(t)
                row.setdefault(ids[t], set()).add(c)
            trans[ids[s]] = {t: frozenset(cs) for t, cs in row.items()}
        # drop states that cannot accept
        live = set(acc)
        ch = True
        while ch:
            ch = False
            for s, row in trans.items():
                if s not in live and any(t in live for t in row):
                    live.add(s)
                    ch = True
        self.trans = {s: {t: cs for t, cs in row.items() if t in live} for s, row in trans.items() if s in live}
        self.acc = acc
        if self.fixed is not None:
            self._fix(self.fixed)
        self.nullable = 0 in acc
        self._widths()
        self.first = frozenset().union(*self.trans.get(0, {}).values()) if self.trans.get(0) else frozenset()
        self.chars = frozenset().union(*[cs for row in self.trans.values() for cs in row.values()] or [frozenset()])
        self.last = frozenset().union(*[cs for row in self.trans.values() for t, cs in row.items() if t in acc]
                                      or [frozenset()])
        self.blank = self.chars <= SPACE

    def _fix(self, n):
        """Keep only the members of length n."""
        good = [set() for _ in range(n + 1)]
        good[n] = set(self.acc)
        for k in range(n - 1, -1, -1):
            good[k] = {q for q, row in self.trans.items() if any(t in good[k + 1] for t in row)}
        ids = {(0, 0): 0}
        trans = {}
        work = [(0, 0)]
        acc = set()
        while work:
            q, k = work.pop()
            i = ids[q, k]
            row = {}
            if k < n:
                for t, cs in self.trans.get(q, {}).items():
                    if t in good[k + 1]:
                        if (t, k + 1) not in ids:
                            ids[t, k + 1] = len(ids)
                            work.append((t, k + 1))
                        row[ids[t, k + 1]] = cs
            else:
                acc.add(i)
            trans[i] = row
        self.trans, self.acc = trans, acc

    def accepts(self, s):
        q = 0
        for c in s:
            for t, cs in self.trans.get(q, {}).items():
                if c in cs:
                    q = t
                    break
            else:
                return False
        return q in self.acc

    def subset_of(self, other):
        seen = set()
        work = [(0, 0)]
        while work:
            a, b = work.pop()
            if (a, b) in seen:
                continue
            seen.add((a, b))
            if a in self.acc and (b is None or b not in other.acc):
                return False
            for t, cs in self.trans.get(a, {}).items():
                for c in cs:
                    nb = None
                    if b is not None:
                        for u, ds in other.trans.get(b, {}).items():
                            if c in ds:
                                nb = u
                                break
                    work.append((t, nb))
        return True


_cols = {}


def run_of(pattern, flags=0):
    """The character set S when the pattern is exactly S+ (one greedy run), else None."""
    tree = sp.parse(pattern, flags)
    if len(tree) != 1:
        return None
    op, av = tree[0]
    while op is sc.SUBPATTERN and av[0] is None and len(av[3]) == 1:
        op, av = av[3][0]
    if op is not sc.MAX_REPEAT or av[0] != 1 or av[1] is not sc.MAXREPEAT:
        return None
    return prog(pattern, flags).single(av[2], tree.state.flags)


def col(core, width, left=False):
    """Fixed-width column: a member of core padded with blanks to the width."""
    k = (core.name, width, left)
    if k not in _cols:
        def sample(r):
            for _ in range(500):
                v = core.sample(r)
                if len(v) <= width:
                    return v.ljust(width) if left else v.rjust(width)
            raise ValueError(f"no {core.name} of width {width}")
        pat = f"(?:{core.pattern}) *" if left else f" *(?:{core.pattern})"
        _cols[k] = Lex(f"{core.name}{'<' if left else '>'}{width}", pat, sample, fixed=width, core=core)
    return _cols[k]


WS0 = Lex("WS0", r" *", lambda r: " " * r.choice([0, 1, 2, 5]))
WS1 = Lex("WS1", r" +", lambda r: " " * r.choice([1, 1, 2, 3, 8]))


# ------------------------------------------------------------------------------------------ formats
class Fmt:
    """Units: str of length 1 or Lex.  Format states: ('B', i) boundary before unit i; ('I', i, s) inside."""

    def __init__(self, units):
        self.units = tuple(units)
        self.n = len(self.units)
        self._out = {}
        self._eps = {}
        self.nl_final = self.n > 0 and self.units[-1] == "\n"

    def key(self):
        return tuple(u if isinstance(u, str) else u.name for u in self.units)

    def boundary_closure(self, i):
        """boundary i plus those reachable over nullable units"""
        out = [i]
        while i < self.n and not isinstance(self.units[i], str) and self.units[i].nullable:
            i += 1
            out.append(i)
        return out

    def outs(self, q):
        """[(charset, q')]"""
        r = self._out.get(q)
        if r is not None:
            return r
        r = []
        if q[0] == "B":
            for i in self.boundary_closure(q[1]):
                if i == self.n:
                    continue
                u = self.units[i]
                if isinstance(u, str):
                    r.append((frozenset(u), ("B", i + 1)))
                else:
                    r += self._lexouts(i, 0)
        else:
            r += self._lexouts(q[1], q[2])
        self._out[q] = r
        return r

    def _lexouts(self, i, s):
        u = self.units[i]
        r = []
        for t, cs in u.trans.get(s, {}).items():
            if u.trans.get(t):
                r.append((cs, ("I", i, t)))
            if t in u.acc:
                r.append((cs, ("B", i + 1)))
        return r

    def final(self, q):
        return q[0] == "B" and self.n in self.boundary_closure(q[1])


class Mixed(Unsupported):
    pass


_bool_cache = {}
_cap_cache = {}


def _classes(p, fmt):
    sets = {i[1] for i in p.code if i[0] == "char"} | {i[3] for i in p.code if i[0] == "look"}
    sets |= {WORD, frozenset("\n")}
    for u in fmt.units:
        if isinstance(u, str):
            sets.add(frozenset(u))
        else:
            for row in u.trans.values():
                sets |= set(row.values())
    sets = list(sets)
    rep = {}
    rep_of = {}
    for c in ALPHABET:
        sig = tuple(c in s for s in sets)
        rep_of[c] = rep.setdefault(sig, c)
    return rep_of


def boolmatch(pattern, flags, mode, fmt, start=0, prev=None):
    """'all' | 'none' | 'mixed' — does the pattern match (search/match/fullmatch) from unit boundary start."""
    key = (pattern, flags, mode, fmt.key(), start, prev)
    r = _bool_cache.get(key)
    if r is None:
        r = _bool_cache[key] = _boolmatch(prog(pattern, flags), mode, fmt, start, prev)
    return r


def _boolmatch(p, mode, fmt, start, prev):
    if p.hascond:
        return "caps"
    rep_of = _classes(p, fmt)
    code = p.code
    memo = {}

    def closure(pcs, prv, nxt, nlend):
        """(set of char pcs, matched)"""
        seen = set()
        st = list(pcs)
        out = set()
        matched = False
        while st:
            pc = st.pop()
            if pc in seen:
                continue
            seen.add(pc)
            i = code[pc]
            o = i[0]
            if o == "char":
                out.add(pc)
            elif o == "save":
                st.append(pc + 1)
            elif o == "jmp":
                st.append(i[1])
            elif o == "split":
                st.append(i[1])
                st.append(i[2])
            elif o == "match":
                if mode != "fullmatch" or nxt is None:
                    matched = True
            else:
                if p.check(i, prv, nxt, nlend):
                    st.append(pc + 1)
        return out, matched

    def step(S, prv, c, nlend):
        k = (S, prv, c, nlend)
        r = memo.get(k)
        if r is None:
            out, m = closure(S, prv, c, nlend)
            if m:
                r = "M"
            elif c is None:
                r = "N"
            else:
                nx = {pc + 1 for pc in out if c in code[pc][1]}
                if mode == "search":
                    nx.add(0)
                r = frozenset(nx)
            memo[k] = r
        return r
    res = set()
    q0 = ("B", start)
    init = (q0, frozenset([0]), prev)
    seen = {init}
    work = [init]
    while work:
        q, S, prv = work.pop()
        if fmt.final(q):
            res.add("all" if step(S, prv, None, False) == "M" else "none")
        for cs, q2 in fmt.outs(q):
            nlend_possible = fmt.nl_final and q2 == ("B", fmt.n)
            for c in {rep_of[x] for x in cs}:
                r = step(S, prv, c, nlend_possible and c == "\n")
                if r == "M":
                    res.add("all")
                elif not r:
                    res.add("none")
                else:
                    cfg = (q2, r, c)
                    if cfg not in seen:
                        seen.add(cfg)
                        work.append(cfg)
            if len(res) == 2:
                return "mixed"
    if len(res) == 1:
        return res.pop()
    return "mixed" if res else "none"


def tok(q):
    return q[1] if q[0] == "B" else ("I", q[1])


def capmatch(pattern, flags, mode, fmt, start=0, prev=None, limit=200000):
    """Set of capture outcomes: None or tuple of tokens (len 2*ngroups), for every string of the format."""
    key = (pattern, flags, mode, fmt.key(), start, prev)
    r = _cap_cache.get(key)
    if r is None:
        r = _cap_cache[key] = _capmatch(prog(pattern, flags), mode, fmt, start, prev, limit)
    return r


def _capmatch(p, mode, fmt, start, prev, limit):
    rep_of = _classes(p, fmt)
    code = p.code
    nslots = 2 * p.ngroups
    empty = (None,) * nslots
    units = fmt.units

    def closure(L, t, prv, nxt, nlend):
        """ordered char threads; match caps (threads after a match are cut)"""
        out = []
        seen = set()
        for pc0, caps0 in L:
            st = [(pc0, caps0)]
            while st:
                pc, caps = st.pop()
                k = (pc, caps) if p.hascond else pc
                if k in seen:
                    continue
                seen.add(k)
                i = code[pc]
                o = i[0]
                if o == "char":
                    out.append((pc, caps))
                elif o == "save":
                    n = i[1]
                    st.append((pc + 1, caps[:n] + (t,) + caps[n + 1:]))
                elif o == "jmp":
                    st.append((i[1], caps))
                elif o == "split":
                    st.append((i[2], caps))
                    st.append((i[1], caps))
                elif o == "cond":
                    st.append((i[2] if caps[2 * i[1] + 1] is not None else i[3], caps))
                elif o == "match":
                    if mode != "fullmatch" or nxt is None:
                        return out, caps
                elif p.check(i, prv, nxt, nlend):
                    st.append((pc + 1, caps))
        return out, None
    res = set()
    init = (("B", start), ((0, empty),), prev, None)
    seen = {init}
    work = [init]
    while work:
        q, L, prv, best = work.pop()
        t = tok(q)
        cache = {}

        def clo(c, nlend):
            k = (c, nlend)
            if k not in cache:
                cache[k] = closure(L, t, prv, c, nlend)
            return cache[k]
        if fmt.final(q):
            _, m = clo(None, False)
            res.add(m if m is not None else best)
        for cs, q2 in fmt.outs(q):
            nlp = fmt.nl_final and q2 == ("B", fmt.n)
            k2 = q2[1] if q2[0] == "I" else q2[1] - 1
            skip = q[0] == "B" and k2 > q[1]      # the empty-able units before unit k2 are empty here
            for c in {rep_of[x] for x in cs}:
                out, m = clo(c, nlp and c == "\n")
                b2 = m if m is not None else best
                if skip:
                    out = [(pc, tuple(k2 if x == t and not n & 1 and type(x) is int else x for n, x in enumerate(caps)))
                           for pc, caps in out]
                nx = []
                sn = set()
                for pc, caps in out:
                    if c in code[pc][1]:
                        k = (pc + 1, caps) if p.hascond else pc + 1
                        if k not in sn:
                            sn.add(k)
                            nx.append((pc + 1, caps))
                if mode == "search" and b2 is None:
                    nx.append((0, empty))
                if not nx:
                    res.add(b2)
                    continue
                cfg = (q2, tuple(nx), c, b2)
                if cfg not in seen:
                    seen.add(cfg)
                    work.append(cfg)
                    if len(seen) > limit:
                        raise Unsupported("regex product too large")
    return frozenset(res)


def nonblank_units(fmt):
    return [i for i, u in enumerate(fmt.units)
            if not ((isinstance(u, str) and u.isspace()) or (not isinstance(u, str) and u.blank))]


def canon_span(fmt, a, b):
    """Canonical span for capture tokens (a, b): (first, last, lead, trail) over the units; exact where blank-free.

    Returns (i, j, frag_lead, frag_trail): the text is [blank fragment]? units[i:j] [blank fragment]?.
    Raises Mixed when a boundary lies inside a non-blank unit.
    """
    lead = trail = False
    if isinstance(a, tuple):
        u = fmt.units[a[1]]
        if not u.blank:
            raise Mixed(f"group starts inside field {u.name}")
        if isinstance(b, tuple) and b[1] == a[1]:
            return ("blank",)
        i = a[1] + 1
        lead = True
    else:
        i = a
    if isinstance(b, tuple):
        u = fmt.units[b[1]]
        if not u.blank:
            raise Mixed(f"group ends inside field {u.name}")
        j = b[1]
        trail = True
    else:
        j = b
    # strip blank units at the ends, remembering that there may be blanks
    while i < j and not isinstance(fmt.units[i], str) and fmt.units[i].blank:
        i += 1
        lead = True
    while j > i and not isinstance(fmt.units[j - 1], str) and fmt.units[j - 1].blank:
        j -= 1
        trail = True
    if j <= i:
        if lead or trail:
            return ("blank",)
        return ("empty",)
    return (i, j, lead, trail)


def decide(pattern, flags, mode, fmt, start=0, prev=None):
    """None (never matches) or list over groups of canonical spans (None for unset); raises Mixed/Unsupported.

    Spans of different strings are merged when they differ in blank fragments only.
    """
    b = boolmatch(pattern, flags, mode, fmt, start, prev)
    if b == "none":
        return None
    if b == "mixed":
        raise Mixed(f"pattern {pattern!r:.80} matches only part of the line language {fmt.key()}")
    outs = capmatch(pattern, flags, mode, fmt, start, prev)
    if None in outs:
        if len(outs) == 1:
            return None
        raise Mixed(f"pattern {pattern!r:.80} matches only part of the line language")
    n = len(next(iter(outs))) // 2
    res = Spans()
    for g in range(n):
        spans = set()
        res.starts.append(_same({o[2 * g] for o in outs}))
        res.ends.append(_same({o[2 * g + 1] for o in outs}))
        try:
            for o in outs:
                if o[2 * g] is None or o[2 * g + 1] is None:
                    spans.add(None)
                else:
                    spans.add(canon_span(fmt, o[2 * g], o[2 * g + 1]))
            res.append(_merge(fmt, spans, g))
        except Mixed as e:
            res.append(("mixed", str(e)))       # raised when the group is looked at
    return res


class Spans(list):
    """Canonical spans of the groups; starts and ends: the unit boundary of each group's ends, where it always is the
    same."""

    def __init__(self, *a):
        super().__init__(*a)
        self.starts, self.ends = [], []


def _same(cuts):
    c = cuts.pop()
    return c if not cuts and isinstance(c, int) else None


def _merge(fmt, spans, g):
    if len(spans) == 1:
        return next(iter(spans))
    if None in spans:
        raise Mixed(f"group {g} set for part of the language only")
    kinds = {s[:1] if len(s) == 1 else s[:2] for s in spans}
    if kinds <= {("blank",), ("empty",)}:
        return ("blank",)
    solid = {s[:2] for s in spans if len(s) == 4}
    if len(solid) == 1 and all(len(s) == 4 for s in spans):
        i, j = next(iter(solid))
        return (i, j, any(s[2] for s in spans), any(s[3] for s in spans))
    # the same solid units with literal blanks at the ends in some strings
    trimmed = set()
    for s in spans:
        if len(s) != 4:
            raise Mixed(f"group {g} varies: {spans}")
        i, j = s[:2]
        while i < j and fmt.units[i] in (" ", "\t", "\n"):
            i += 1
        while j > i and fmt.units[j - 1] in (" ", "\t", "\n"):
            j -= 1
        trimmed.add((i, j))
    if len(trimmed) == 1:
        i, j = trimmed.pop()
        return (i, j, True, True)
    raise Mixed(f"group {g} varies: {spans}")
