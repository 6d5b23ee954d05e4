"""Comprehensions, generator arguments and reductions as explicit loops, so that the loop cutting sees their state.

dv.pyload turns `[E for t in IT if C]`, `sum(E for ...)`, `any(...)`, ... into calls of these functions when a module is
loaded; on concrete iterables they do exactly what the original does."""
import builtins
import functools
import itertools
from dv.core import SInt, LInt, cur, is_sym
from dv.rope import SSeq, SList
from dv.loops import SRange, SIter, dv_while     # noqa: F401


def symbolic(it):
    if isinstance(it, SSeq):
        return not it.is_concrete()
    if isinstance(it, SRange):
        return type(it.dv_len()) is not int
    return type(it).__name__ in ("SIter", "_SEnum", "SymSeq") or getattr(it, "_dv_symbolic_iter", False)


def _items(it):
    if isinstance(it, SSeq):
        return it.items()
    return it


def dv_listcomp(fn, it, cond=None):
    if not symbolic(it):
        return [fn(x) for x in it if cond is None or cond(x)]
    result = SList([])
    if cond is None:
        for x in it:
            result.append(fn(x))
    else:
        for x in it:
            if cond(x):
                result.append(fn(x))
    return result


def dv_sumcomp(fn, it, cond=None, start=0):
    total = start
    if cond is None:
        for x in it:
            total = total + fn(x)
    else:
        for x in it:
            if cond(x):
                total = total + fn(x)
    return total


def dv_anycomp(fn, it, cond=None):
    for x in it:
        if (cond is None or cond(x)) and fn(x):
            return True
    return False


def dv_allcomp(fn, it, cond=None):
    for x in it:
        if (cond is None or cond(x)) and not fn(x):
            return False
    return True


def dv_nextcomp(fn, it, cond, *default):
    for x in it:
        if cond is None or cond(x):
            return fn(x)
    if default:
        return default[0]
    raise StopIteration


def dv_sum(it, start=0):
    total = start
    for x in it:
        total = total + x
    return total


def dv_any(it):
    for x in it:
        if x:
            return True
    return False


def dv_all(it):
    for x in it:
        if not x:
            return False
    return True


def dv_reduce(fn, it, *initial):
    if not symbolic(it):
        return functools.reduce(fn, it, *initial)
    if initial:
        result = initial[0]
        for x in it:
            result = fn(result, x)
        return result
    raise TypeError("dv_reduce without an initial value over a symbolic sequence")


class dv_functools:
    """functools with a reduction the loop cutting can see."""
    reduce = staticmethod(dv_reduce)

    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        return getattr(self._real, name)
