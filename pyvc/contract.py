"""Contracts, proof tasks and concrete replay."""
from __future__ import annotations
import importlib
import io
import os
import random
import signal
import sys
import time
import traceback
import warnings

CONTRACTS = []


class Case:
    """One call under contract: call(*args, **kwargs) must return `expect`, or raise one of `raises`."""

    def __init__(self, call, args=(), kwargs=None, expect=None, raises=None, known=()):
        self.call, self.args, self.kwargs = call, list(args), dict(kwargs or {})
        self.expect, self.raises = expect, raises
        self.known = list(known)      # [(finding id, what the code returns instead)]


class Contract:
    def __init__(self, prop, name, fn, variants, mode, samples, tier, under, merging=False, round_=1):
        self.prop, self.name, self.fn, self.variants = prop, name, fn, variants
        self.mode = mode            # "prove" | "bounded"
        self.samples = samples
        self.tier = tier
        self.under = under
        self.merging = merging
        self.round = round_


def contract(prop, variants=({},), mode="prove", samples=None, tier="quick", under=(), merging=False, round=1):
    def deco(fn):
        CONTRACTS.append(Contract(prop, fn.__name__, fn, [dict(v) for v in variants], mode, samples, tier, under, merging, round))
        return fn
    return deco


def load(prop=None):
    import pkgutil
    import vcontracts
    for m in sorted(x.name for x in pkgutil.iter_modules(vcontracts.__path__)):
        importlib.import_module("vcontracts." + m)
    return [c for c in CONTRACTS if prop is None or c.prop == prop]


# ------------------------------------------------------------------------------------------------ concrete replay
class CpuLimit(Exception):
    pass


def _alarm(*_):
    raise CpuLimit()


def run_concrete(c, variant, seed, counts=None, cpu=20.0):
    """None when the real code meets the contract on the drawn case, else a dict describing the failure."""
    from .doc import RndCtx, plain, same
    from .values import Skip
    g = RndCtx(seed, counts)
    g.special = (seed % 4 == 3)
    try:
        case = c.fn(g, **variant)
    except Skip:
        return "skip"
    show = g.show()
    expect = plain(case.expect)
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    res = exc = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                res = case.call(*case.args, **case.kwargs)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
    except CpuLimit:
        why = f"no result after {cpu} s of processor time"
        return dict(seed=seed, why=why, document=show, expected=repr(expect)[:4000])
    except RecursionError as e:
        exc = e
    except Exception as e:
        exc = e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    if case.raises is not None:
        if exc is not None and isinstance(exc, case.raises):
            return None
        got = f"raised {type(exc).__name__}: {exc}" if exc is not None else f"returned {res!r:.600}"
        return dict(seed=seed, why=f"expected {tuple(x.__name__ for x in case.raises)}, {got}", document=show)
    if exc is not None:
        tb = traceback.extract_tb(exc.__traceback__)
        at = [f"{f.filename}:{f.lineno}" for f in tb if "castep_outputs" in f.filename][-1:]
        return dict(seed=seed, why=f"raised {type(exc).__name__}: {str(exc)[:300]} at {at}", document=show,
                    expected=repr(expect)[:4000])
    r = same(res, expect)
    if r is None:
        return None
    for fid, alt in case.known:
        if same(res, plain(alt)) is None:
            return fid
    return dict(seed=seed, why="result " + r, document=show, expected=repr(expect)[:6000], got=repr(res)[:6000])


# ------------------------------------------------------------------------------------------------ proof
def prove(c, variant, deadline, verbose=False, solver_ms=4000):
    """dict(status=proved|refuted|undecided, ...)"""
    from . import machine as mc, values as V, summ
    from .doc import SymCtx
    M = mc.Machine(budget=4_000_000, solver_ms=solver_ms)
    M.verbose = verbose
    M.merging = c.merging
    M.round = c.round  # steps allowed in a trial of a loop's body
    M.deadline = deadline
    t0 = time.time()
    out = dict(status="undecided", why="", paths=0, obligations=0, discharged=0, counts=None)
    st = mc.State()
    g = SymCtx(M, st)
    case = None
    try:
        case = c.fn(g, **variant)
        if case.call is None:
            raise V.Unsupported("no call")
        if not M.feasible(st):
            out["why"] = "precondition is not satisfiable"
            return out
        st = M.start(case.call, case.args, case.kwargs, st)
        outs = M.run(st)
        live = []
        for k, s, v in outs:
            r = M.check(s)
            if r == "unsat":
                continue
            live.append((k, s, v, r))
        out["paths"] = len(live)
        if not live:
            out["why"] = "no feasible path"
            return out
        bad = None
        for k, s, v, r in live:
            out["obligations"] += 1
            why = None
            if k == "raise":
                cls = s.get(v).cls if v is not None else None
                if case.raises is None or not (cls and issubclass(cls, case.raises)):
                    args = [summ.freeze(s, a) if not isinstance(a, V.Ref) else a for a in s.get(v).attrs["args"].items]
                    why = f"raises {cls.__name__}{args!r:.200}"
            elif case.raises is not None:
                why = f"returns instead of raising {tuple(x.__name__ for x in case.raises)}"
            else:
                cmp_ = summ.Cmp(M, s, s, strict=False)
                try:
                    try:
                        cmp_.val(v, M.lift(s, case.expect))
                    except summ.Mismatch as e:
                        for fid, alt in case.known:
                            c2 = summ.Cmp(M, s, s, strict=False)
                            try:
                                c2.val(v, M.lift(s, alt))
                                out.setdefault("findings", []).append(fid)
                                break
                            except summ.Mismatch:
                                pass
                        else:
                            raise
                except summ.Mismatch as e:
                    why = f"postcondition: {e}"
                    if any(str(e).find(x) >= 0 for x in ("cannot tell", "different element grouping", "does not end")):
                        bad = bad or ("undecided", why, s)
                        continue
                out["obligations"] += cmp_.goals
                out["discharged"] += cmp_.goals
            if why is None:
                out["discharged"] += 1
                continue
            status = "refuted" if r == "sat" else "undecided"
            if bad is None or bad[0] == "undecided" and status == "refuted":
                bad = (status, why, s)
        if bad is None:
            out["status"] = "proved"
        else:
            out["status"], out["why"] = bad[0], bad[1]
            out["counts"] = M.model_counts(bad[2], g)
            out["path"] = [str(x)[:200] for x in bad[2].pc][:20] + [f"through {t}" for t in bad[2].trace][:20]
    except V.Unsupported as e:
        out["why"] = f"{type(e).__name__}: {e}"[:600]
        if verbose:
            traceback.print_exc(limit=-12)
    except mc.Budget as e:
        out["why"] = f"budget: {e}"
    except RecursionError as e:
        out["why"] = "verifier recursion"
        if verbose:
            traceback.print_exc(limit=-12)
    except Exception as e:
        out["why"] = f"verifier: {type(e).__name__}: {e}"[:600]
        if verbose:
            traceback.print_exc(limit=-12)
    finally:
        out["obligations"] += len(M.obl)
        out["discharged"] += sum(1 for _, ok in M.obl if ok)
        out["loops"] = sorted({n for n, ok in M.obl})
        out["solver_time"] = round(M.solver_time, 3)
        out["queries"] = M.nqueries
        out["functions"] = sorted({f"{code_name(x)}" for x in M.interpreted})
        out["trusted"] = sorted(M.trusted)
        out["wall"] = round(time.time() - t0, 2)
    return out


def code_name(c):
    fn = c.co_filename
    for root in ("/repo/", "/verif/"):
        if fn.startswith(root):
            fn = fn[len(root):]
    return f"{fn}:{c.co_qualname}"


# ------------------------------------------------------------------------------------------------ one task
def task(c, vi, tier, seed0, verbose=False):
    variant = c.variants[vi]
    t0 = time.time()
    quick = tier == "quick"
    n = (c.samples or 40) if quick else 20 * (c.samples or 40)
    base = seed0 * 1000003 + 17
    res = dict(contract=c.name, variant=variant, mode=c.mode, status="", why="", runs=0, fail=None, proof=None, findings=[])
    tc = time.time()
    lim = 40 if quick else 200

    def concrete(count, off, counts=None, limit=None):
        t = time.time()
        for k in range(count):
            r = run_concrete(c, variant, base + off + k, counts)
            if r == "skip":
                continue
            res["runs"] += 1
            if isinstance(r, str):
                if r not in res["findings"]:
                    res["findings"].append(r)
                continue
            if r is not None:
                r["counts"] = counts
                return r
            if time.time() - t > (limit or lim):
                break
        return None

    f = concrete(n, 0)
    res["concrete_wall"] = round(time.time() - tc, 2)
    if f:
        res["fail"] = f
    if c.mode == "prove" and not (f and quick and False):
        p = prove(c, variant, time.time() + (200 if quick else 600), verbose)
        res["proof"] = p
        res["status"], res["why"] = p["status"], p["why"]
        res["findings"] = sorted(set(res["findings"]) | set(p.get("findings", ())))
        if p["status"] != "proved" and not f:
            for attempt in (p.get("counts"), None):
                if attempt is None or attempt:
                    f = concrete(400, 100000, attempt, 60)
                    if f:
                        res["fail"] = f
                        break
    else:
        res["status"] = "bounded"
        if quick is False and not f:
            pass
    res["wall"] = round(time.time() - t0, 2)
    return res
