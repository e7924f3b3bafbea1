"""conformance.py [Cxx ...]: the verifier's interpreter against CPython.

Every contract's drawn cases are executed twice on the same arguments: by CPython, and by pyvc's interpreter of the bytecode with its models of
builtins, re and files (nothing symbolic).  Results and exceptions must agree.  Cases needing real files are left out."""
import copy
import io
import os
import sys
import threading
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get("VERIF_REPO", "/repo")]
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import logging
import warnings
logging.disable(50)
warnings.simplefilter("ignore")
from pyvc import contract, machine as mc, values as V, doc


def conv(st, o, memo):
    if isinstance(o, io.StringIO):
        name = getattr(o, "name", None)
        ls = o.getvalue().splitlines(keepends=True)
        return st.new(V.HFile(ls, name=name) if name is not None else V.HFile(ls))
    if isinstance(o, (io.BytesIO, io.IOBase)):
        raise V.Unsupported("binary or real file")
    if type(o) is tuple:
        return V.Tup([conv(st, x, memo) for x in o])
    if isinstance(o, (list, dict, set)):
        if id(o) not in memo:
            if isinstance(o, list):
                memo[id(o)] = st.new(V.HList([conv(st, x, memo) for x in o]))
            elif isinstance(o, dict):
                cls = type(o) if type(o).__module__ in ("builtins", "collections") else dict
                memo[id(o)] = st.new(V.HDict([V.KV(conv(st, k, memo), conv(st, x, memo)) for k, x in o.items()], cls, getattr(o, "default_factory", None)))
            else:
                memo[id(o)] = st.new(V.HSet([conv(st, x, memo) for x in o], set))
        return memo[id(o)]
    return o


def back(M, st, v):
    if isinstance(v, V.Tup):
        if V.has_seg(v.items):
            raise V.Unsupported("not concrete")
        return tuple(back(M, st, x) for x in v.items)
    if isinstance(v, V.FList):
        return [back(M, st, x) for x in v.items]
    if isinstance(v, V.FDict):
        return {back(M, st, e.k): back(M, st, e.v) for e in v.entries}
    if isinstance(v, V.Ref):
        o = st.heap[v.id]
        if isinstance(o, V.HList):
            return [back(M, st, x) for x in o.items]
        if isinstance(o, V.HDict):
            return {back(M, st, e.k): back(M, st, e.v) for e in o.entries}
        if isinstance(o, V.HSet):
            return {back(M, st, x) for x in o.items}
        raise V.Unsupported(f"result {type(o).__name__}")
    if isinstance(v, (V.Sym, V.Frozen)):
        raise V.Unsupported(f"symbolic {v!r:.80}")
    return v


def rounded(v):
    """Floats to 12 digits: the interpreter may sum in another order (the proofs take sums of floats as sums of numbers)."""
    if isinstance(v, float):
        return float(f"{v:.12g}")
    if type(v) in (list, tuple):
        return type(v)(rounded(x) for x in v)
    if isinstance(v, dict):
        d = copy.copy(v)
        for k, x in v.items():
            d[k] = rounded(x)
        return d
    return v


def one(c, variant, seed):
    """'same', 'left out: ...' or a difference."""
    def case():
        return c.fn(doc.RndCtx(seed), **variant)
    try:
        a, b = case(), case()
    except V.Skip:
        return "left out: skipped"
    M = mc.Machine(budget=3_000_000)
    M.deadline = time.time() + 20
    st = mc.State()
    try:
        memo = {}
        args = [conv(st, x, memo) for x in a.args]
        kw = {k: conv(st, x, memo) for k, x in a.kwargs.items()}
        outs = M.run(M.start(a.call, args, kw, st))
        if len(outs) != 1:
            return f"DIFFERENT: {len(outs)} paths"
        k, s, v = outs[0]
        if k == "raise":
            got = ("raise", s.get(v).cls)
        else:
            got = ("return", back(M, s, v))
    except (V.Unsupported, mc.Budget) as e:
        return f"left out: {type(e).__name__} {e}"[:100]
    try:
        want = ("return", b.call(*b.args, **b.kwargs))
    except Exception as e:
        want = ("raise", type(e))
    if want[0] == "return":
        from pyvc.doc import same
        r = same(rounded(want[1]), rounded(got[1])) if got[0] == "return" else f"interpreter raises {got[1]}"
        return "same" if r is None else f"DIFFERENT: {r}"
    return "same" if want == got else f"DIFFERENT: {want} {got}"


def main():
    tot, left, diff = 0, {}, 0
    for c in contract.load():
        if len(sys.argv) > 1 and c.prop not in sys.argv[1:]:
            continue
        for v in c.variants:
            for seed in range(int(os.environ.get("CASES", 2))):
                try:
                    r = one(c, v, seed)
                except Exception as e:
                    r = f"left out: {type(e).__name__} {e}"[:100]
                if r == "same":
                    tot += 1
                elif r.startswith("left"):
                    left[(c.prop, r)] = left.get((c.prop, r), 0) + 1
                else:
                    diff += 1
                    print(c.prop, c.name, v, seed, r[:300], flush=True)
    for (p, k), n in sorted(left.items(), key=lambda x: -x[1])[:40]:
        print(n, p, k)
    print(f"{tot} cases agree, {diff} differ, {sum(left.values())} left out")
    return diff


threading.stack_size(512 * 1024 * 1024)
rc = []
t = threading.Thread(target=lambda: rc.append(main()))
t.start()
t.join()
sys.exit(1 if not rc or rc[0] else 0)
