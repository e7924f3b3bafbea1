#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] | --replay FILE | --list

Decides one property: every contract of the property is verified for all inputs by symbolic execution of the
bytecode of /repo's current source (pyvc), and additionally run on drawn documents under CPython."""
import argparse
import json
import os
import signal
import sys
import time
import traceback

if os.environ.get("PYTHONHASHSEED") != "0":
    # sets of texts iterate in the same order in every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, REPO]
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import logging
logging.disable(50)

CHECKER = f"python3-vt {HERE}/check.py"


def run_tasks(tasks, jobs, tier, seed, limit, verbose=False):
    """Each task in its own forked process; [(result)] in order."""
    results = [None] * len(tasks)
    todo = list(range(len(tasks)))
    live = {}
    end = time.time() + limit
    sys.stdout.flush()
    while todo or live:
        while todo and len(live) < jobs and time.time() < end:
            i = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    if not verbose:
                        dn = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(dn, 1)
                        os.dup2(dn, 2)
                    from pyvc import contract
                    c, vi = tasks[i]
                    try:
                        res = contract.task(c, vi, tier, seed, verbose)
                    except BaseException as e:
                        res = dict(contract=c.name, variant=c.variants[vi], mode=c.mode, status="error",
                                   why=f"{type(e).__name__}: {e} " + traceback.format_exc(limit=-3)[-800:], runs=0,
                                   fail=None, proof=None)
                    with os.fdopen(w, "wb") as f:
                        f.write(json.dumps(res, default=str).encode())
                finally:
                    os._exit(0)
            os.close(w)
            live[pid] = (i, r, b"", time.time())
        if not live:
            break
        import select
        fds = {v[1]: p for p, v in live.items()}
        rd, _, _ = select.select(list(fds), [], [], 1.0)
        for fd in rd:
            pid = fds[fd]
            i, r, buf, t = live[pid]
            data = os.read(fd, 1 << 20)
            if data:
                live[pid] = (i, r, buf + data, t)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del live[pid]
            try:
                results[i] = json.loads(buf)
            except ValueError:
                results[i] = dead(tasks[i], "worker ended without a result")
        if time.time() > end:
            for pid, (i, r, buf, t) in list(live.items()):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                results[i] = dead(tasks[i], "out of time")
            live = {}
            for i in todo:
                results[i] = dead(tasks[i], "out of time")
            todo = []
    return results


def dead(t, why):
    c, vi = t
    return dict(contract=c.name, variant=c.variants[vi], mode=c.mode, status="error", why=why, runs=0, fail=None,
                proof=None)


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from pyvc import contract
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    try:
        import castep_outputs  # noqa: F401
        cs = contract.load(a.prop)
    except Exception as e:
        # the code under test cannot even be imported
        print(f"the code under test does not import: {type(e).__name__}: {e}")
        path = write_replay(a.prop, dict(why="import error", contract="import", error=traceback.format_exc()))
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    if a.only:
        cs = [c for c in cs if a.only in c.name or a.only == c.fn.__module__.split(".")[-1]]
    tasks = [(c, vi) for c in cs if a.tier == "thorough" or c.tier == "quick" for vi in range(len(c.variants))]
    results = run_tasks(tasks, a.jobs, a.tier, seed, 780 if a.tier == "quick" else 6 * 3600, a.verbose)
    code = report(a.prop, a.tier, seed, results, t0, a.verbose, bool(a.only))
    return code


def write_replay(prop, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    n = 0
    while os.path.exists(os.path.join(d, f"{prop}-{n}.json")):
        n += 1
    p = os.path.join(d, f"{prop}-{n}.json")
    with open(p, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return p


def report(prop, tier, seed, results, t0, verbose, partial):
    code = 0
    proved = refuted = undecided = bounded = 0
    obligations = discharged = 0
    funcs, trusted, assumptions, loops = set(), set(), set(), set()
    solver = queries = 0
    runs = 0
    undec = []
    bnd = []
    paths = 0
    nviol = 0
    lines = []
    for r in results:
        p = r.get("proof") or {}
        runs += r["runs"]
        obligations += p.get("obligations", 0) or 0
        discharged += p.get("discharged", 0) or 0
        paths += p.get("paths", 0)
        funcs |= set(p.get("functions", ()))
        trusted |= set(p.get("trusted", ()))
        loops |= set(p.get("loops", ()))
        solver += p.get("solver_time", 0)
        queries += p.get("queries", 0)
        nm = f"{r['contract']}{r['variant'] or ''}"
        if r["status"] == "proved":
            proved += 1
        elif r["status"] == "bounded":
            bounded += 1
            bnd.append(f"{nm}: {r['runs']} drawn cases")
        elif r["status"] == "refuted":
            refuted += 1
        else:
            undecided += 1
            undec.append(f"{nm}: {r['why'][:300]}")
        if verbose or r["status"] != "proved" and r["mode"] == "prove" or r["fail"]:
            print(f"  {nm}: {r['status']} {r['why'][:300]} ({r['runs']} runs, {r.get('wall', 0)} s)"
                  + (f" FAILED: {r['fail']['why'][:300]}" if r["fail"] else ""))
        elif partial:
            print(f"  {nm}: {r['status']} ({r['runs']} runs, proof {p.get('wall', 0)} s)")
        if r["fail"]:
            nviol += 1
            path = write_replay(prop, dict(property=prop, contract=r["contract"], variant=r["variant"], **r["fail"],
                                           obligation=r["why"],
                                           replay=f"{CHECKER} --replay <this file>"))
            lines.append(f"VIOLATION property={prop} replay={path}")
        elif r["status"] == "refuted":
            nviol += 1
            path = write_replay(prop, dict(property=prop, contract=r["contract"], variant=r["variant"],
                                           obligation=r["why"], path=p.get("path"), counts=p.get("counts"),
                                           verifier=p))
            lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    seen = {x: r for r in results for x in r.get("findings", ())}
    listed = {f["id"]: f for f in known()["findings"] if f.get("property") == prop}
    for fid, r in sorted(seen.items()):
        if fid in listed:
            print(f"KNOWN-FINDING: property={prop} {fid}: {listed[fid]['what']}")
        else:
            nviol += 1
            path = write_replay(prop, dict(property=prop, contract=r["contract"], variant=r["variant"], finding=fid))
            lines.append(f"VIOLATION property={prop} replay={path}")
    # concrete failures first: they carry the input
    lines.sort(key=lambda x: x.endswith("no-failing-input-found"))
    for ln in lines[:20]:
        print(ln)
    code = 1 if lines else 0
    ev = dict(
        property=prop, tier=tier, seed=seed, level="proof",
        coverage=dict(
            obligations=obligations, discharged=discharged,
            checker_cmd=f"{CHECKER} {prop} --tier {tier}",
            trusted_base=sorted(trusted | TRUSTED),
            contracts=len(results), contracts_proved=proved, contracts_refuted=refuted,
            contracts_undecided=undec, contracts_bounded=bnd, paths=paths,
            functions_under_contract=sorted(funcs), loop_invariants=sorted(loops),
            back_end=f"z3 {z3ver()} through pyvc symbolic execution of CPython {sys.version.split()[0]} bytecode",
            solver_time_s=round(solver, 2), solver_queries=queries,
            evaluations=runs, rule="documents drawn from the same contracts, run on the real code under CPython",
            bounded_note="contracts listed under contracts_bounded/contracts_undecided are checked on drawn cases "
                         "only and are not counted as proved",
        ),
        assumptions=sorted(ASSUME | assumptions),
        wall_s=round(time.time() - t0, 2), violations=nviol)
    if not partial:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop}: {len(results)} contracts, {proved} proved, {bounded} bounded, {undecided} undecided, "
          f"{refuted} refuted; {discharged}/{obligations} obligations, {runs} drawn cases, {time.time() - t0:.1f} s")
    if not results:
        print("no contracts")
        return 2
    return code


TRUSTED = {
    "pyvc: symbolic semantics of CPython 3.12 bytecode (tools/conformance.py executes the drawn cases with it and with CPython and compares)",
    "pyvc models of builtins, re, io, itertools, functools and struct calls (pyvc/models.py, pyvc/prelude.py)",
    "z3 SMT solver",
}
ASSUME = {
    "field texts range over the lexical classes stated in the contracts (printed Fortran number formats with "
    "exponents of 1-3 digits)",
    "blank runs are non-empty runs of spaces where the contract writes a separator",
    "float(text), int(text) and complex(re, im) are uninterpreted functions of the text on both sides",
    "file reads deliver the written lines; encoding errors and operating-system errors are outside the contracts",
}


def z3ver():
    import z3
    return z3.get_version_string()


def replay(path):
    from pyvc import contract
    d = json.load(open(path))
    for c in contract.load(d["property"]):
        if c.name == d["contract"]:
            if "seed" not in d:
                r = contract.prove(c, d["variant"], time.time() + 600)
                print(json.dumps(r, indent=1, default=str))
                return 0 if r["status"] == "proved" else 1
            r = contract.run_concrete(c, d["variant"], d["seed"], d.get("counts"))
            if isinstance(r, str) or r is None:
                print("the contract holds on this case", r or "")
                return 0
            print(json.dumps(r, indent=1))
            return 1
    print("contract not found")
    return 2


if __name__ == "__main__":
    sys.exit(main())
