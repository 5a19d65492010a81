"""The checks by property."""
PROPS = {}


def prop(pid, **meta):
    def deco(fn):
        PROPS[pid] = (fn, meta)
        return fn
    return deco


def load():
    from . import atomics, averages, copies, keys, lifetimes, lifo, made, meters, observe, prometheus, races, reg, rings, sampling, snapshots, values, view, visiting  # noqa
    return PROPS
