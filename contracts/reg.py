"""Harness registry: @ob(property, functions under contract, ...)"""
HARNESSES = {}       # pid -> list of dict


def ob(pid, *funcs, sym=True, n=150, name=None, loops=None, gen=None, quick=True, bound=None):
    """Register a proof obligation harness.

    funcs: names of the /repo functions whose contracts the harness proves.
    sym:   False -> bounded stand-in only (never counted as proved).
    bound: the size bound within which the claim is proved for all values.
    n:     number of drawn inputs in the concrete replay."""
    def deco(f):
        HARNESSES.setdefault(pid, []).append(dict(
            name=name or f.__name__, fn=f, funcs=funcs, sym=sym, n=n, loops=loops, gen=gen, quick=quick, bound=bound))
        return f
    return deco
