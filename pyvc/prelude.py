"""Pure-Python definitions of iteration-driven builtins, executed by the same bytecode machine (trusted models)."""
from collections import defaultdict


def tuple_(it=()):
    out = []
    for x in it:
        out.append(x)
    return __as_tuple__(out)


def list_(it=()):
    out = []
    for x in it:
        out.append(x)
    return out


def extend_(lst, it):
    for x in it:
        lst.append(x)


def set_(it=()):
    out = set()
    for x in it:
        out.add(x)
    return out


def frozenset_(it=()):
    out = set()
    for x in it:
        out.add(x)
    return __as_frozenset__(out)


def set_update_(s, *its):
    for it in its:
        for x in it:
            s.add(x)


def dict_pairs(d, it):
    for k, v in it:
        d[k] = v
    return d


class MapStr:
    """map(str, it)"""

    def __init__(self, it):
        self.it = iter(it)

    def __iter__(self):
        return self

    def __next__(self):
        return str(next(self.it))


def map_(f, *its):
    if len(its) == 1:
        for x in its[0]:
            yield f(x)
    elif len(its) == 2:
        for x, y in zip(its[0], its[1]):
            yield f(x, y)
    elif len(its) == 3:
        for x, y, z in zip(its[0], its[1], its[2]):
            yield f(x, y, z)
    else:
        for xs in zip(*its):
            yield f(*xs)


def starmap_(f, it):
    for xs in it:
        yield f(*xs)


def filter_(f, it):
    if f is None:
        for x in it:
            if x:
                yield x
    else:
        for x in it:
            if f(x):
                yield x


def filterfalse_(f, it):
    if f is None:
        for x in it:
            if not x:
                yield x
    else:
        for x in it:
            if not f(x):
                yield x


def enumerate_(it, start=0):
    n = start
    for x in it:
        yield (n, x)
        n += 1


_END = "<<pyvc end>>"


def zip_(*its, strict=False):
    if len(its) == 2:
        a, b = iter(its[0]), iter(its[1])
        for x in a:
            try:
                y = next(b)
            except StopIteration:
                if strict:
                    raise ValueError("zip() argument 2 is shorter than argument 1")
                return
            yield (x, y)
        if strict:
            for _ in b:
                raise ValueError("zip() argument 2 is longer than argument 1")
        return
    if not its:
        return
    iters = [iter(i) for i in its]
    while True:
        out = []
        for i in iters:
            try:
                out.append(next(i))
            except StopIteration:
                if strict and out:
                    raise ValueError("zip() lengths differ")
                return
        yield tuple(out)


def zip_longest_(*its, fillvalue=None):
    if len(its) == 2:
        a, b = iter(its[0]), iter(its[1])
        done = False
        for x in a:
            yield (x, fillvalue if done else next(b, fillvalue))
        for y in b:
            yield (fillvalue, y)
        return
    iters = [iter(i) for i in its]
    live = [True for _ in its]
    while True:
        out = []
        some = False
        for n in range(len(iters)):
            if live[n]:
                try:
                    out.append(next(iters[n]))
                    some = True
                    continue
                except StopIteration:
                    live[n] = False
            out.append(fillvalue)
        if not some:
            return
        yield tuple(out)


def chain_(*its):
    for it in its:
        for x in it:
            yield x


def chain_from_(its):
    for it in its:
        for x in it:
            yield x


def islice_(it, *args):
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        start, stop, step = args[0] or 0, args[1], 1
    else:
        start, stop, step = args[0] or 0, args[1], args[2] or 1
    n = 0
    nxt = start
    if stop is not None and stop <= n:
        return
    for x in it:
        if n == nxt:
            yield x
            nxt += step
        n += 1
        if stop is not None and n >= stop:
            return


def takewhile_(f, it):
    for x in it:
        if not f(x):
            return
        yield x


def dropwhile_(f, it):
    drop = True
    for x in it:
        if drop and f(x):
            continue
        drop = False
        yield x


def repeat_(x, times=None):
    if times is None:
        while True:
            yield x
    else:
        for _ in range(times):
            yield x


def count_(start=0, step=1):
    n = start
    while True:
        yield n
        n += step


def cycle_(it):
    saved = []
    for x in it:
        yield x
        saved.append(x)
    while saved:
        for x in saved:
            yield x


def any_(it):
    for x in it:
        if x:
            return True
    return False


def all_(it):
    for x in it:
        if not x:
            return False
    return True


def sum_(it, start=0):
    for x in it:
        start = start + x
    return start


def join_(sep, it):
    return __join__(sep, [x for x in it])


def getitem_iter(o):
    i = 0
    while True:
        try:
            x = o[i]
        except IndexError:
            return
        yield x
        i += 1


def iter_call(f, sentinel):
    while True:
        x = f()
        if x == sentinel:
            return
        yield x


def reversed_(s):
    return iter(s[::-1])


def dict_update_(d, it):
    for k, v in it:
        d[k] = v


def counter_update_(c, it):
    for x in it:
        c[x] += 1
    return c


def fromkeys_(keys, val=None):
    d = {}
    for k in keys:
        d[k] = val
    return d


def min_key(it, key, best_first):
    first = True
    best = bk = None
    for x in it:
        k = key(x)
        if first or (k < bk if best_first else k > bk):
            best, bk, first = x, k, False
    return best


def reduce_(f, it, *init):
    it = iter(it)
    if init:
        acc = init[0]
    else:
        acc = next(it)
    for x in it:
        acc = f(acc, x)
    return acc


def readlines_(f):
    out = []
    for line in f:
        out.append(line)
    return out


def accumulate_(it):
    first = True
    acc = 0
    for x in it:
        if first:
            acc = x
            first = False
        else:
            acc = acc + x
        yield acc


def pairwise_(it):
    it = iter(it)
    a = next(it, _END)
    for b in it:
        yield (a, b)
        a = b


def mapping_get(self, key, default=None):
    try:
        return self[key]
    except KeyError:
        return default


def re_sub_callable(parts, f):
    out = []
    for isgap, p in parts:
        if isgap:
            out.append(p)
        else:
            out.append(f(p))
    return "".join(out)


def __as_tuple__(x):
    raise NotImplementedError


def __as_frozenset__(x):
    raise NotImplementedError


def __join__(sep, x):
    raise NotImplementedError
