"""Extents of objects and the judgement of single accesses: entirely inside, provably outside, or not known."""
from engine import Facts, State
from terms import *  # noqa: F401,F403
import llir


def split(eng, p):
    base = None
    for at, c in p.t:
        if c == 1 and (at[0] == "obj" or eng.is_ptr(at)):
            if base is not None and base[0] == "obj":
                continue
            base = at
    return (None, p) if base is None else (base, sub(p, A(base)))


def objsize(eng, base):
    """Size of an object of known extent (heap, stack or global), else None."""
    if base[0] != "obj":
        return None
    o = eng.objs.get(base[1])
    if o is not None:
        sz = o["size"]
        return sz if isinstance(sz, Lin) else K(sz)
    if base[1].startswith("@"):
        g = eng.prog.globals.get(base[1][1:])
        if g is not None and g.ty is not None:
            try:
                return K(llir.sizeof(g.ty))
            except Exception:
                return None
    return None


def cases(f, x):
    """x with each undecided comparison in it taken as 0 and as 1, with the facts that go with it."""
    for at, _ in x.t:
        if at[0] == "cmp":
            rest = Lin(tuple((b, c) for b, c in x.t if b != at), x.c)
            k = dict(x.t)[at]
            for v in (0, 1):
                s = State(f.eng)
                s.dom, s.iv, s.lin, s.ne, s.pred, s.noc = dict(f.dom), dict(f.iv), f.lin, f.ne, f.pred, f.noc
                if s.assume(A(at), bool(v)):
                    yield from cases(s.facts, addc(rest, k * v))
            return
    yield f, x


def inside(f, size, off, n):
    """True: [off, off+n) lies in [0, size); False: it does not; None: not known."""
    if any(at[0] == "cmp" for at, _ in off.t):
        got = {inside(g, size, o, n) for g, o in cases(f, off)}
        return False if False in got else None if None in got else True
    lo, hi = f.ge0(off), f.ge0(sub(size, add(off, n)))
    if lo and hi:
        return True
    if f.gt0(scale(off, -1)) or f.gt0(sub(add(off, n), size)) and f.ge0(addc(n, -1)):
        return False
    over = addc(sub(add(off, n), size), -1)
    if exact(off) and exact(over):
        for bad in (addc(scale(off, -1), -1), over):
            if not f.ge0(scale(addc(bad, 1), -1)) and feasible(f, (bad, addc(n, -1))):
                return False
        return True
    return None


def in_string(f, length, off):
    """A byte of a string of the given length (its terminator included) is read: True, None, or False when the last
    position known to be within it lies before `off` and nothing shows that the string goes on."""
    if f.ge0(off) and f.ge0(sub(length, off)):
        return True
    if f.gt0(scale(off, -1)) or f.gt0(sub(off, length)):
        return False
    for k in range(1, 9):
        q = addc(off, -k)
        if f.ge0(q) and f.ge0(sub(length, q)):
            return False
    return None


def strengthen(f, hyps, base=None, ver=0):
    """The facts with more linear ones, and what they imply through known bytes of a string: a byte within the string
    that is not null means that the string goes on."""
    g = Facts(f.eng, f.dom, f.iv, f.lin + tuple(hyps), f.ne, f.pred, f.noc)
    if base is None:
        return g
    L = A(("leaf", "strlen", base, ver, 64))
    known = [(at[3], d) for at, d in f.dom.items()
             if at[0] == "leaf" and at[1] == "mem8" and at[2] == base and at[4] == ver]
    done = set()
    more = True
    while more:
        more = False
        for off, d in known:
            if off in done or not g.ge0(sub(L, off)):
                continue
            done.add(off)
            if 0 not in d:
                g = Facts(f.eng, f.dom, f.iv, g.lin + (addc(sub(L, off), -1),), f.ne, f.pred, f.noc)
                more = True
            elif d == frozenset((0,)):
                g = Facts(f.eng, f.dom, f.iv, g.lin + (sub(off, L),), f.ne, f.pred, f.noc)
                more = True
    return g


EXACT = ("arg", "strlen", "param")


def exact(x):
    """Only inputs occur, nothing a loop or an unknown operation produced."""
    return all(at[0] == "leaf" and (at[1] in EXACT or at[1:3] == ("off", "chr")) for at, _ in x.t)


def feasible(f, cons, limit=400):
    """Whether the linear facts together with cons (each >= 0) have a rational solution (Fourier-Motzkin); None if it
    became too large."""
    work = [c for c in cons]
    vs = {at for c in work for at, _ in c.t}
    pool = list(f.lin)
    changed = True
    while changed:
        changed = False
        for x in list(pool):
            if any(at in vs for at, _ in x.t):
                pool.remove(x)
                work.append(x)
                new = {at for at, _ in x.t} - vs
                if new:
                    vs |= new
                    changed = True
    for at in vs:
        lo, hi = f.bound(at)
        if lo > -(1 << 60):
            work.append(addc(A(at), -lo))
        if hi < (1 << 60):
            work.append(addc(scale(A(at), -1), hi))
    work = set(work)
    for v in sorted(vs, key=repr):
        pos, neg, rest = [], [], set()
        for x in work:
            c = dict(x.t).get(v, 0)
            if c:
                (pos if c > 0 else neg).append((c, x))
            else:
                rest.add(x)
        for cp, p in pos:
            for cn, n in neg:
                y = add(scale(p, -cn), scale(n, cp))
                if not y.t:
                    if y.c < 0:
                        return False
                    continue
                rest.add(y)
        if len(rest) > limit:
            return None
        work = rest
    return all(x.c >= 0 for x in work if not x.t)


def unbounded(run, off):
    """Whether off grows with the number of iterations of a loop that nothing limits: every variable of the loop is
    constant or counts, and no condition on the way round mentions the count."""
    ns = {at: c for at, c in off.t if at[0] == "leaf" and at[1] == "N"}
    if not ns:
        return False
    loops = {}
    for _, e in run.events("loop"):
        lp = e.x["loop"]
        if single(lp.N) in ns:
            loops[single(lp.N)] = lp
    for n, c in ns.items():
        lp = loops.get(n)
        if lp is None or c <= 0 or not getattr(lp, "backs", None):
            continue
        if any(d["d"][0] not in ("same", "aff") for d in lp.mdesc.values()):
            continue
        if not any(repeats(lp, h, s) and not mentions(s, n) for h, s in lp.backs):
            continue
        return True
    return False


def repeats(lp, h, s):
    """Whether one iteration path can be followed again and again: what it does not count it leaves as it was."""
    for k, d in lp.desc.items():
        if d[0] == "same" or d[0] == "aff" and d[1] == "step":
            continue
        hv, nv = h.pv.get(k), s.phi_next.get(k)
        if hv is None or nv is None or not any(x.c == 0 and not x.t for _, x in cases(s.facts, sub(nv, hv))):
            return False
    return True


def mentions(s, n):
    for x in list(s.lin) + list(s.ne):
        if n in atoms_of(x):
            return True
    for c, _ in s.pred:
        if n in atoms_of(A(c)):
            return True
    if n in s.iv and s.iv[n][1] < (1 << 60):
        return True
    return any(n in atoms_of(A(at)) for at in s.dom)
