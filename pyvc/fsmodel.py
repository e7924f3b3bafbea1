"""Paths and the file system.

A path whose text is not known is ``SPath``: directory text (ending in "/" or empty), stem and suffix.  Which files
exist, and what they hold, is part of the contract (``ghost["fs"]``: name, lines; ``ghost["files"]``: name, existence
condition; ``ghost["globs"]``: directory, pattern, names).  Asking for a name the contract does not mention is not
decided.  Opening gives a fresh handle on the lines; modes and closedness are tracked.
"""
import argparse
import glob as globmod
import io
import os
import pathlib
import types

from . import rx, strs
from .models import FUNCS, METHODS, OBJ_ATTR, VAL_ATTR, fn, klass, meth
from .values import *


class SPath(Sym):
    __slots__ = ("parent", "stem", "suffix")
    pycls = pathlib.PosixPath

    def __init__(self, parent, stem, suffix):
        self.parent, self.stem, self.suffix = parent, stem, suffix

    @property
    def text(self):
        if self.parent is None:
            return self.stem
        return mkstr(pieces_of(self.parent) + pieces_of(self.stem) + pieces_of(self.suffix))

    def __repr__(self):
        return f"SPath({self.text!r})"


def split_path(s):
    """Path object of a text: the last "/" and the last "." after it must be visible."""
    ps = list(pieces_of(s))
    parent, tail = [], ps
    for k in range(len(ps) - 1, -1, -1):
        p = ps[k]
        if isinstance(p, str):
            if "/" in p:
                n = p.rindex("/") + 1
                parent, tail = ps[:k] + [p[:n]], [p[n:]] + ps[k + 1:]
                break
        elif "/" in p.cls.chars:
            return SPath(None, s, None)
    for p in parent:
        if isinstance(p, str) and ("//" in p or p.startswith("./") or "/./" in p):
            raise Unsupported("unusual path text")
    tail = [p for p in tail if p != ""]
    if not tail:
        raise Unsupported(f"path text {s!r}")
    stem, suffix = tail, ""
    for k in range(len(tail) - 1, -1, -1):
        p = tail[k]
        if isinstance(p, str):
            if "." in p:
                n = p.rindex(".")
                if n == len(p) - 1 and k == len(tail) - 1:      # a trailing dot is no suffix
                    break
                if k == 0 and n == 0:                           # a leading dot is no suffix
                    break
                stem, suffix = tail[:k] + [p[:n]], mkstr([p[n:]] + tail[k + 1:])
                break
        elif "." in p.cls.chars:
            raise Unsupported("suffix of an unknown name")
    return SPath(mkstr(parent), mkstr([p for p in stem if p != ""]), suffix)


@klass(pathlib.Path, pathlib.PosixPath, pathlib.PurePath, pathlib.PurePosixPath)
def _path(M, st, a, kw):
    if len(a) == 1 and isinstance(a[0], (SPath, pathlib.Path)):
        return a[0]
    if len(a) == 1 and isinstance(a[0], SStr):
        return split_path(a[0])
    if all(isinstance(x, (str, pathlib.Path)) for x in a) and not kw:
        return pathlib.Path(*a)
    raise Unsupported("path of parts")


def _text(p):
    return p if isinstance(p, SStr) else p.text if isinstance(p, SPath) else str(p)


def _va(name):
    def d(f):
        def h(M, st, v):
            if v.parent is None:
                raise Unsupported("part of an unknown path")
            return f(v)
        VAL_ATTR[(SPath, name)] = h
        return f
    return d


@_va("suffix")
def _suffix(v):
    return v.suffix


@_va("stem")
def _stem(v):
    return v.stem


@_va("name")
def _name(v):
    return mkstr(pieces_of(v.stem) + pieces_of(v.suffix))


@_va("parent")
def _parent(v):
    ps = list(pieces_of(v.parent))
    if not ps:
        return pathlib.Path(".")
    t = mkstr(ps[:-1] + [ps[-1][:-1]])
    return split_path(t) if isinstance(t, SStr) else pathlib.Path(t or "/")


def pmeth(*names):
    return meth(pathlib.Path, *names)


@meth(pathlib.PurePath, "with_suffix")
def p_with_suffix(M, st, a, kw):
    p, s = a[0], a[1]
    if not isinstance(p, SPath):
        return p.with_suffix(s)
    if p.parent is None:
        raise Unsupported("part of an unknown path")
    return SPath(p.parent, p.stem, s)


@meth(pathlib.PurePath, "with_name")
def p_with_name(M, st, a, kw):
    p, s = a[0], a[1]
    if not isinstance(p, SPath) and isinstance(s, str):
        return p.with_name(s)
    if not isinstance(p, SPath):
        raise Unsupported("with_name")
    if p.parent is None:
        raise Unsupported("part of an unknown path")
    return split_path(mkstr(pieces_of(p.parent) + pieces_of(s)))


@meth(pathlib.PurePath, "joinpath", "__truediv__")
def p_join(M, st, a, kw):
    t = _text(a[0])
    if t == ".":
        return split_path(_text(a[1])) if isinstance(_text(a[1]), SStr) else pathlib.Path(_text(a[1]))
    r = mkstr(pieces_of(t) + ["/"] + list(pieces_of(_text(a[1]) if isinstance(a[1], SPath) else a[1])))
    return split_path(r) if isinstance(r, SStr) else pathlib.Path(r)


@meth(pathlib.PurePath, "__str__", "__fspath__", "as_posix")
def p_str(M, st, a, kw):
    return _text(a[0])


FUNCS[os.fspath] = lambda M, st, a, kw: _text(a[0]) if isinstance(a[0], SPath) else os.fspath(a[0])


def lookup(st, kind, p):
    t = _text(p)
    for e in st.ghost.get(kind, ()):
        if strs.eq(e[0], t) is True:
            return e
    return None


@pmeth("is_file", "exists")
def p_is_file(M, st, a, kw):
    e = lookup(st, "files", a[0])
    if e is not None:
        return SBool(e[1]) if not isinstance(e[1], bool) else e[1]
    if lookup(st, "fs", a[0]) is not None:
        return True
    raise Unsupported(f"existence of {_text(a[0])!r}")


@pmeth("expanduser")
def p_expanduser(M, st, a, kw):
    """A name that does not begin with "~" is left as it is."""
    ps = pieces_of(_text(a[0]))
    if not ps or (ps[0].startswith("~") if isinstance(ps[0], str) else "~" in ps[0].cls.chars):
        raise Unsupported("home directory")
    return a[0]


ABSTXT = rx.Lex("ABSTXT", r"/[ -~]*")


@pmeth("absolute")
def p_absolute(M, st, a, kw):
    """Some name: nothing is known of the working directory."""
    return SPath(None, mkstr([Atom(z3.String("absolute!"), ABSTXT)]), "")


@pmeth("stat")
def p_stat(M, st, a, kw):
    e = lookup(st, "fs", a[0])
    if e is None or len(e) < 3 or e[2] is None:
        raise Unsupported(f"size of {_text(a[0])!r}")
    idx, s0, b = e[2]
    M.trusted.add("positions of a text file count bytes, and parts of one size have equally many")
    return st.new(HInst(types.SimpleNamespace, {"st_size": simp_int(s0 + b * zint(e[1][idx].hi))}))


@pmeth("glob")
def p_glob(M, st, a, kw):
    t = _text(a[0])
    for d, pat, names in st.ghost.get("globs", ()):
        if strs.eq(d, t) is True and strs.eq(pat, a[1]) is True:
            return M.get_iter(st, st.new(HList(list(names))))
    raise Unsupported(f"glob {t!r} {a[1]!r}")


@fn(globmod.escape)
def _escape(M, st, a, kw):
    for p in pieces_of(a[0]):
        if set("*?[") & (set(p) if isinstance(p, str) else set(p.cls.chars)):
            raise Unsupported("escape of magic characters")
    return a[0]


def open_(M, st, p, mode="r", *rest, **kw):
    e = lookup(st, "fs", p)
    if e is None:
        raise Unsupported(f"opening {_text(p)!r}")
    if rest or set(kw) - {"encoding", "errors", "newline", "buffering"} or mode not in ("r", "rt", "rb", "a", "a+"):
        raise Unsupported("open options")
    if mode in ("a", "a+"):
        e = (e[0], ())      # at the end
    binary = "b" in mode
    f = HFile(e[1], p, io.BufferedReader if binary else io.TextIOWrapper)
    f.mode = mode
    if len(e) > 2 and e[2] is not None:
        f.layout = e[2]
    r = st.new(f)
    st.ghost["opened"] = st.ghost.get("opened", ()) + (r,)
    return r


@pmeth("open")
def p_open(M, st, a, kw):
    if "mode" in kw:
        kw = dict(kw)
        a = list(a) + [kw.pop("mode")]
    return open_(M, st, *a, **kw)


@fn(open, io.open)
def _open(M, st, a, kw):
    if "mode" in kw:
        kw = dict(kw)
        a = list(a) + [kw.pop("mode")]
    return open_(M, st, *a, **kw)


OBJ_ATTR[(HFile, "mode")] = lambda M, st, v: getattr(st.get(v), "mode", None) or "r"

for _c in (pathlib.Path, pathlib.PurePath):
    for _n in ("open", "is_file", "exists", "glob", "stat", "expanduser"):
        if _n in _c.__dict__:
            FUNCS[_c.__dict__[_n]] = (lambda nm: lambda M, st, a, kw: METHODS[(pathlib.Path, nm)](M, st, a, kw))(_n)


# ------------------------------------------------------------------------------------------------ callees by contract
class Listing:
    """os.scandir in the order of names (the order of a directory is nobody's promise)."""
    real = staticmethod(os.scandir)

    def __init__(self, *a):
        with Listing.real(*a) as it:
            self.entries = sorted(it, key=lambda e: e.name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def __iter__(self):
        return iter(self.entries)


def with_stubs(stubs, fn, args=(), kwargs=None):
    """fn(*args, **kwargs) with each function of stubs [(function, replacement)] replaced by its contract."""
    undo = []
    scan = os.scandir
    os.scandir = Listing
    undo.append(lambda: setattr(os, "scandir", scan))
    try:
        for n, (f, rep) in enumerate(stubs):
            if hasattr(f, "registry"):
                old = f.registry[object]
                f.register(object, rep)
                undo.append(lambda f=f, old=old: f.register(object, old))
            else:
                nm = f"__pyvc_stub_{n}__"
                f.__globals__[nm] = rep
                ns = {}
                exec(f"def t(*a, **k):\n    return {nm}(*a, **k)\n", ns)
                old = (f.__code__, f.__defaults__, f.__kwdefaults__)
                f.__code__, f.__defaults__, f.__kwdefaults__ = ns["t"].__code__, None, None

                def back(f=f, old=old, nm=nm):
                    f.__code__, f.__defaults__, f.__kwdefaults__ = old
                    del f.__globals__[nm]
                undo.append(back)
        return fn(*args, **(kwargs or {}))
    finally:
        for u in reversed(undo):
            u()


@fn(with_stubs)
def _with_stubs(M, st, a, kw):
    stubs, f = a[0], a[1]
    args = a[2] if len(a) > 2 else Tup(())
    kwargs = a[3] if len(a) > 3 else None
    from .models import seq_items, dict_concrete
    for it in seq_items(M, st, stubs):
        t, rep = it.items
        if hasattr(t, "registry"):
            t = t.dispatch(object)

        def con(M, st, args, kw, rep=rep):
            return M.call_(st, rep, args, kw)
        M.contracts[t] = con
        st.ghost["stub", t] = st.new(HCell(rep))        # keeps what the contract refers to
        M.trusted.add(f"callee by contract: {getattr(t, '__qualname__', t)}")
    k = {e.k: e.v for e in dict_concrete(M, st, kwargs)} if kwargs is not None else {}
    return M.call_(st, f, list(seq_items(M, st, args)), k)


@klass(argparse.Namespace)
def _namespace(M, st, a, kw):
    return st.new(HInst(argparse.Namespace, dict(kw)))
