"""Loops over linked lists: what is visited, from where, and how a path leaves."""
from terms import *  # noqa: F401,F403


def field(at):
    """(base, struct, offset) if at is the value of a structure field, else None."""
    if at is not None and at[0] == "leaf" and at[1] == "mem" and len(at) > 4 and isinstance(at[4], tuple):
        c = at[4][-1]
        if isinstance(c, tuple) and c and c[0] == "f":
            return at[2], c[1], c[2]
    return None


def is_field(p, v, base, name):
    """v is the value of field `name` of the structure at base: True, False (something else known) or None."""
    f = field(single(v)) if v.t else None
    if f is None:
        return False if not v.t else None
    if p.field(f[1], f[2]) == name and f[0] == base:
        return True
    return False


class Walk:
    """A variable of a loop that steps through a list by its `next` field."""

    def __init__(self, lp, var, init):
        self.lp, self.var, self.init = lp, var, init

    def cursor(self, h):
        return single(h.pv[self.var])


def walks(p, lp):
    """The variables of a loop that follow `next` links, with whether every way round takes exactly one step."""
    out = []
    for var in lp.init:
        steps = []
        for h, s in lp.backs:
            c, v = h.pv.get(var), s.phi_next.get(var)
            if c is None or v is None:
                break
            f = field(single(v)) if v.t else None
            if f is None or p.field(f[1], f[2]) != "next":
                steps.append(None)
            else:
                steps.append(f[0] == single(c))
        else:
            if steps and any(x is not None for x in steps):
                w = Walk(lp, var, lp.init[var])
                w.steps = False if False in steps else None if None in steps else True
                w.other = [k for k, x in enumerate(steps) if x is not True]
                out.append(w)
    return out
