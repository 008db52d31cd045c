"""A path-partitioned abstract interpreter over mem2reg'd LLVM IR.

Domain of one abstract state:
  * SSA values are linear forms over atoms (value numbering), see terms.py;
  * facts: a finite value set per finite atom (bytes, flags, return codes, file kinds), an interval
    per other atom, a conjunction of linear inequalities, and disequalities;
  * memory: typed cells (base, offset) -> value with class-based invalidation, and for character
    data a log of symbolic writes from which the *content* of a buffer is described as a
    concatenation of pieces of source strings, literals and bytes;
  * typestate of heap objects and handles; the list of events (calls, stores) on the path.
Branches split states (the partition), loops are solved by fixpoint with widening of the header
state, calls are interpreted in context.  Nothing is executed and no solver is used: every decision
is made by interval/finite-set evaluation on the abstract state.
"""
import itertools
import math
import re

import llir
from terms import *  # noqa: F401,F403
from terms import _sx, _ux

INF = 1 << 70


class Budget(Exception):
    pass


class Event:
    __slots__ = ("kind", "name", "args", "ret", "inst", "facts", "strs", "stack", "x", "uid")

    def __init__(self, kind, name, args, ret, inst, facts, stack, strs=None, **x):
        self.kind, self.name, self.args, self.ret, self.inst = kind, name, args, ret, inst
        self.facts, self.stack, self.strs, self.x = facts, stack, strs or {}, x
        self.uid = None

    def loc(self):
        return "%s (in %s)" % (self.inst.loc(), self.inst.fn.name) if self.inst is not None else "?"

    def __repr__(self):
        return "%s %s(%s)%s @%s" % (self.kind, self.name, ", ".join(map(repr, self.args)),
                                    "" if self.ret is None else " -> %r" % (self.ret,), self.loc())


class Node:
    """A node of the event graph: paths share prefixes, joins have several predecessors."""
    __slots__ = ("prev", "event", "uid")
    count = 0

    def __init__(self, prev, event):
        self.prev, self.event = prev, event
        Node.count += 1
        self.uid = Node.count


def reduced(x):
    """x >= 0 over the integers, divided by what divides all coefficients."""
    if len(x.t) < 2:
        return x
    g = 0
    for _, c in x.t:
        g = math.gcd(g, c)
        if g == 1:
            return x
    y = K(x.c // g)
    for at, c in x.t:
        y = add(y, scale(A(at), c // g))
    return y


def same_object(eng, a, b):
    """Two pointers into one object, whose order is that of their offsets."""
    p = {at for at, c in a.t if c == 1 and (at[0] == "obj" or at in eng.ptrs)}
    return bool(p) and any(at in p and c == 1 for at, c in b.t)


class Facts:
    """Immutable-by-convention view of what is known on a path."""
    __slots__ = ("eng", "dom", "iv", "lin", "ne", "pred", "noc", "_nonce")

    def __init__(self, eng, dom, iv, lin, ne, pred, noc=frozenset()):
        self.eng, self.dom, self.iv, self.lin, self.ne, self.pred = eng, dom, iv, lin, ne, pred
        self.noc = noc

    @property
    def facts(self):
        return self

    # -- domains
    def domof(self, at):
        d = self.dom.get(at)
        if d is not None:
            return d
        return self.eng.default_dom(at)

    def bound(self, at):
        d = self.dom.get(at)
        if d is None:
            d = self.eng.default_dom(at)
        lo, hi = self.eng.default_iv(at, self)
        if d is not None and d:
            lo, hi = max(lo, min(d)), min(hi, max(d))
        v = self.iv.get(at)
        if v:
            lo, hi = max(lo, v[0]), min(hi, v[1])
        return lo, hi

    def lower(self, x):
        r = x.c
        for at, c in x.t:
            lo, hi = self.bound(at)
            b = lo if c > 0 else hi
            if b <= -INF or b >= INF:
                return -INF
            r += c * b
        return r

    def upper(self, x):
        r = self.lower(scale(x, -1))
        return INF if r == -INF else -r

    def ge0(self, x, depth=3):
        """Whether x >= 0 is entailed."""
        if self.lower(x) >= 0:
            return True
        x = reduced(x)
        if depth == 0 or not x.t:
            return False
        seen = set()
        for at, c in x.t:
            for f in self.lin:
                for a2, c2 in f.t:
                    if a2 == at and c2 != 0 and (c > 0) == (c2 > 0) and c % c2 == 0:
                        k = c // c2
                        y = sub(x, scale(f, k))
                        if y in seen or len(y.t) > 6:
                            continue
                        seen.add(y)
                        if self.ge0(y, depth - 1):
                            return True
        return False

    def gt0(self, x):
        if self.ge0(addc(x, -1)):
            return True
        return (x in self.ne or scale(x, -1) in self.ne) and self.ge0(x)

    def eq0(self, x):
        return (not x.t and x.c == 0) or (self.ge0(x, 2) and self.ge0(scale(x, -1), 2))

    def ne0(self, x):
        if not x.t:
            return x.c != 0
        return x in self.ne or scale(x, -1) in self.ne or self.gt0(x) or self.gt0(scale(x, -1)) or \
            self._ne_set(x) or self._apart(x)

    def _apart(self, x):
        """Whether x is the difference of the start of something this program opened or allocated and of another such
        thing or of one of the standard streams."""
        if len(x.t) != 2 or x.c or {c for _, c in x.t} != {1, -1}:
            return False
        own = [at for at, _ in x.t if at[0] == "obj" and self.eng.objs.get(at[1], {}).get("kind") in ("heap", "handle")]
        std = [at for at, _ in x.t if at[0] == "leaf" and at[1] == "mem" and at[2] in STD]
        return len(own) == 2 or len(own) == len(std) == 1

    def _ne_set(self, x):
        r = self.values(x)
        return r is not None and 0 not in r

    def values(self, x, limit=None):
        """All values of x if it depends on finite atoms only, else None."""
        limit = self.eng.enum_limit if limit is None else limit
        lv = leaves(x)
        doms = []
        for at in lv:
            d = self.domof(at)
            if d is None:
                return None
            doms.append((at, d))
        n = 1
        for _, d in doms:
            n *= max(1, len(d))
            if n > limit:
                return None
        out = set()
        if len(doms) == 1:
            at, d = doms[0]
            d = self.admitted(at, d)
            t = value_table(x, at, d)
            out = {t[v] for v in d}
            return None if None in out else out
        for asg in self.enum(doms):
            try:
                out.add(ev(x, asg))
            except Unknown:
                return None
        return out

    def admitted(self, at, d):
        """The values of the leaf `at` in d that satisfy the single-leaf conditions of the path."""
        for (c, truth) in self.pred:
            if leaves_atom(c) == {at} and c[0] == "cmp":
                t = truth_sets(c[1], c[3], c[4], c[2], at, d)
                d = d - (t[1] if truth else t[0])
        return d

    def enum(self, doms):
        names = [a for a, _ in doms]
        ns = set(names)
        res = [p for p in self.pred if leaves_atom(p[0]) <= ns]
        for vals in itertools.product(*[sorted(d) for _, d in doms]):
            asg = dict(zip(names, vals))
            ok = True
            for c, truth in res:
                try:
                    if bool(ev_atom(c, asg)) != truth:
                        ok = False
                        break
                except Unknown:
                    pass
            if ok:
                yield asg

    def decide(self, pred, a, b, w):
        """True / False / None for `a pred b` at width w."""
        pred, b = zero_form(pred, b)
        d = sub(a, b)
        if not a.t and not b.t:
            return cmpvals(pred, a.c, b.c, w)
        if not d.t:
            if pred in ("eq", "ne"):
                return (d.c == 0) == (pred == "eq")
            if pred[0] == "s" and w > 8 or (w == 64):
                return cmpvals("s" + pred[1:], d.c, 0, 64)
        lv = leaves(a) | leaves(b)
        doms, n = [], 1
        for at in lv:
            dm = self.domof(at)
            if dm is None:
                doms = None
                break
            doms.append((at, dm))
            n *= max(1, len(dm))
        if doms is not None and len(doms) == 1:
            at, dm = doms[0]
            dm = self.admitted(at, dm)
            ts = truth_sets(pred, a, b, w, at, dm)
            if dm & ts[2]:
                return None
            t, f = bool(dm & ts[0]), bool(dm & ts[1])
            return t if t != f else None
        if doms is not None and n <= self.eng.enum_limit:
            t = f = False
            for asg in self.enum(doms):
                try:
                    if cmpvals(pred, ev(a, asg), ev(b, asg), w):
                        t = True
                    else:
                        f = True
                except Unknown:
                    t = f = True
                if t and f:
                    return None
            if t != f:
                return t
            return None
        if pred == "eq" or pred == "ne":
            if self.ne0(d):
                return pred == "ne"
            if self.eq0(d):
                return pred == "eq"
            return None
        if pred[0] == "u" and not same_object(self.eng, a, b):
            if not (self.ge0(a) and self.ge0(b)):
                return None
        if w == 8:
            return None
        p = pred[1:]
        if p in ("lt", "ge"):
            if self.gt0(scale(d, -1)):
                return p == "lt"
            if self.ge0(d):
                return p == "ge"
        else:
            if self.gt0(d):
                return p == "gt"
            if self.ge0(scale(d, -1)):
                return p == "le"
        return None


def zero_form(pred, b):
    """Unsigned comparisons that only tell zero from the rest."""
    if pred[0] == "u" and not b.t:
        if b.c == 0 and pred in ("ugt", "ule"):
            return ("ne" if pred == "ugt" else "eq"), b
        if b.c == 1 and pred in ("uge", "ult"):
            return ("ne" if pred == "uge" else "eq"), K(0)
    return pred, b


_TRUTH = {}


def truth_sets(pred, a, b, w, at, dom):
    """(values of the single leaf `at` making the comparison true, false, unknown), memoised."""
    key = (pred, a, b, w)
    t = _TRUTH.get(key)
    if t is None:
        t = _TRUTH[key] = [frozenset(), frozenset(), frozenset(), frozenset()]
    new = dom - t[3]
    if new:
        T, F, U = set(), set(), set()
        for v in new:
            asg = {at: v}
            try:
                (T if cmpvals(pred, ev(a, asg), ev(b, asg), w) else F).add(v)
            except Unknown:
                U.add(v)
        t[0], t[1], t[2], t[3] = t[0] | T, t[1] | F, t[2] | U, t[3] | new
    return t


_VALS = {}


def value_table(x, at, dom):
    """value of leaf -> value of x (None: unknown), memoised."""
    t = _VALS.get(x)
    if t is None:
        t = _VALS[x] = {}
    for v in dom:
        if v not in t:
            try:
                t[v] = ev(x, {at: v})
            except Unknown:
                t[v] = None
    return t


BYTES = frozenset(range(256))
S_KINDS = {"fifo": 0o010000, "chr": 0o020000, "dir": 0o040000, "blk": 0o060000, "reg": 0o100000, "lnk": 0o120000,
           "sock": 0o140000}
MODES = frozenset(k | p for k in S_KINDS.values() for p in (0, 0o777, 0o7777, 0o644, 0o111))


STD = {("obj", "@stdin"), ("obj", "@stdout"), ("obj", "@stderr")}
FAULTS = {"null", "maybe-null", "use-after-free", "double-free", "bad-free", "use-after-close", "double-close", "wild"}


class State:
    def __init__(self, eng):
        self.eng = eng
        self.env = {}
        self.dom, self.iv, self.lin, self.ne, self.pred = {}, {}, (), frozenset(), ()
        self.mem, self.cver = {}, {}
        self.log, self.fill, self.bver = {}, {}, {}
        self.heap, self.handles = {}, {}
        self.escaped = frozenset()
        self.ev = None
        self.stack = ()
        self.fs = 0            # file system epoch: changes at every mutation
        self.statmem = {}      # (call, path content, fs epoch) -> (ret, fields epoch)
        self._facts = None
        self.notes = ()
        self.lpid, self.calls = None, frozenset()
        self.noc = frozenset()  # (base, offset, version, length or None, byte): byte does not occur there

    def fork(self):
        s = State.__new__(State)
        s.eng, s.env = self.eng, dict(self.env)
        s.dom, s.iv, s.lin, s.ne, s.pred = self.dom, self.iv, self.lin, self.ne, self.pred
        s.mem, s.cver = dict(self.mem), dict(self.cver)
        s.log, s.fill, s.bver = dict(self.log), dict(self.fill), dict(self.bver)
        s.heap, s.handles = dict(self.heap), dict(self.handles)
        s.escaped, s.ev, s.stack, s.fs = self.escaped, self.ev, self.stack, self.fs
        s.statmem = self.statmem
        s._facts = self._facts
        s.notes, s.noc = self.notes, self.noc
        s.lpid, s.calls = self.lpid, self.calls
        return s

    @property
    def facts(self):
        if self._facts is None:
            self._facts = Facts(self.eng, self.dom, self.iv, self.lin, self.ne, self.pred, self.noc)
        return self._facts

    def event(self, kind, name, args, ret, inst, strs=None, **x):
        e = Event(kind, name, args, ret, inst, self.facts, self.stack, strs, **x)
        self.ev = Node((self.ev,) if self.ev is not None else (), e)
        if kind in FAULTS:
            self.eng.faults.append((self.ev, self))
        return e

    def events(self, since=None):
        """Events of the path to this state (of one path, where paths were joined)."""
        out = []
        n = self.ev
        while n is not None and n is not since:
            if n.event is not None:
                out.append(n.event)
            n = n.prev[0] if n.prev else None
        out.reverse()
        return out

    # ------------------------------------------------------------ facts
    def setdom(self, at, d):
        self.dom = dict(self.dom)
        self.dom[at] = d = frozenset(d)
        self._facts = None
        if at[0] == "leaf" and at[1] == "mem8":
            return self.byte_learnt(at, d)
        return True

    set_byte = setdom

    def byte_learnt(self, at, d):
        """A byte at an offset within its string is now known to be (no) terminator."""
        _, _, base, off, ver, _ = at
        x = sub(self.strlen_atom(base, ver), off)
        if 0 not in d:
            if self.facts.ge0(x):
                return self.addge(addc(x, -1))
        elif d == frozenset((0,)):
            if self.facts.ge0(x):
                return self.addge(scale(x, -1))
        return True

    def setiv(self, at, lo, hi):
        o = self.facts.bound(at)
        lo, hi = max(lo, o[0]), min(hi, o[1])
        self.iv = dict(self.iv)
        self.iv[at] = (lo, hi)
        self._facts = None
        return lo <= hi

    def addge(self, x):
        """Assumes x >= 0; False if infeasible."""
        f = self.facts
        if f.lower(x) >= 0:
            return True
        if f.upper(x) < 0:
            return False
        if len(x.t) == 1:
            at, c = x.t[0]
            if f.domof(at) is None or at in self.iv:
                if c > 0:
                    return self.setiv(at, -(x.c // c), INF)
                return self.setiv(at, -INF, x.c // (-c))
        x = reduced(x)
        if f.ge0(scale(addc(x, 1), -1), 2):
            return False
        if x not in self.lin:
            self.lin = self.lin + (x,)
            self._facts = None
            for y in self.ne:
                # x >= 0 and x != 0
                if y == x or y == scale(x, -1):
                    self.lin = self.lin + (addc(x, -1),)
        return True

    def addne(self, x):
        f = self.facts
        if f.eq0(x):
            return False
        if f.ne0(x):
            return True
        if len(x.t) == 1:
            at, c = x.t[0]
            lo, hi = f.bound(at)
            if x.c % c == 0:
                v = -x.c // c
                if v == lo:
                    return self.setiv(at, lo + 1, hi)
                if v == hi:
                    return self.setiv(at, lo, hi - 1)
        self.ne = self.ne | {x}
        self._facts = None
        if f.ge0(x):
            return self.addge(addc(x, -1))
        if f.ge0(scale(x, -1)):
            return self.addge(addc(scale(x, -1), -1))
        return True

    def assume_cmp(self, pred, a, b, w):
        pred, b = zero_form(pred, b)
        f = self.facts
        r = f.decide(pred, a, b, w)
        if r is not None:
            return r
        lv = leaves(a) | leaves(b)
        doms, n = [], 1
        for at in lv:
            d = f.domof(at)
            if d is None:
                doms = None
                break
            doms.append((at, d))
            n *= max(1, len(d))
        d = sub(a, b)
        if doms is not None and n <= self.eng.enum_limit:
            keep = {at: set() for at, _ in doms}
            single1 = len(doms) == 1
            if single1:
                at, dm = doms[0]
                dm = f.admitted(at, dm)
                ts = truth_sets(pred, a, b, w, at, dm)
                keep[at] = dm & (ts[0] | ts[2])
            for asg in (() if single1 else f.enum(doms)):
                try:
                    ok = cmpvals(pred, ev(a, asg), ev(b, asg), w)
                except Unknown:
                    ok = True
                if ok:
                    for at, v in asg.items():
                        keep[at].add(v)
            for at, o in doms:
                if not keep[at]:
                    return False
                if len(keep[at]) != len(o):
                    if not self.setdom(at, keep[at]):
                        return False
            c = ("cmp", pred, w, a, b)
            if len(doms) > 1 or any(x[0] == "op" and x[1] in ("isupper", "islower", "isalpha") for x in atoms_of(c)):
                self.pred = self.pred + ((c, True),)
                self._facts = None
            return True
        self.pred = self.pred + ((("cmp", pred, w, a, b), True),)
        self._facts = None
        if pred == "eq":
            ok = self.addge(d) and self.addge(scale(d, -1))
            return ok and self._alias(a, b)
        if pred == "ne":
            return self.addne(d)
        p = pred[1:]
        if pred[0] == "u" and not same_object(self.eng, a, b):
            # a <u b bounds a below by 0 as well, provided b is not negative
            if p in ("lt", "le"):
                if not f.ge0(b):
                    return True
                if not self.addge(a):
                    return False
            else:
                if not f.ge0(a):
                    return True
                if not self.addge(b):
                    return False
        if w == 8:
            return True
        if p == "lt":
            return self.addge(addc(scale(d, -1), -1))
        if p == "le":
            return self.addge(scale(d, -1))
        if p == "gt":
            return self.addge(addc(d, -1))
        return self.addge(d)

    def _alias(self, a, b):
        """a == b was learnt: nothing more is done for pointers (facts carry it)."""
        return True

    def assume(self, cond, truth):
        """cond: width-1 linear form."""
        if not cond.t:
            return bool(cond.c & 1) == truth
        if len(cond.t) == 1:
            at, c = cond.t[0]
            if cond.c == 1 and c == -1:
                truth, c = not truth, 1
                cond = A(at)
            if cond.c == 0 and c == 1:
                if at[0] == "cmp":
                    _, pred, w, a, b = at
                    # zext(cmp) compared with a constant
                    if not truth:
                        pred = NEG[pred]
                    ia = single(a)
                    if pred in ("eq", "ne") and not b.t and ia is not None and ia[0] == "cmp":
                        want = (b.c == 1) == (pred == "eq") if b.c in (0, 1) else (pred == "ne")
                        if b.c not in (0, 1):
                            return want
                        return self.assume(a, want)
                    if pred in ("eq", "ne") and not b.t and ia is not None and ia[0] == "op" and ia[1] == "strcmp" \
                            and b.c == 0:
                        if not self.eng.strcmp_learn(self, ia, pred == "eq"):
                            return False
                    return self.assume_cmp(pred, a, b, w)
        return self.assume_cmp("ne" if truth else "eq", cond, K(0), 1)

    def decide(self, cond):
        if not cond.t:
            return bool(cond.c & 1)
        if len(cond.t) == 1:
            at, c = cond.t[0]
            if cond.c == 1 and c == -1:
                r = self.decide(A(at))
                return None if r is None else not r
            if cond.c == 0 and c == 1 and at[0] == "cmp":
                _, pred, w, a, b = at
                ia = single(a)
                if pred in ("eq", "ne") and not b.t and ia is not None and ia[0] == "cmp":
                    if b.c not in (0, 1):
                        return pred == "ne"
                    r = self.decide(a)
                    return None if r is None else (r == (b.c == 1)) == (pred == "eq")
                return self.facts.decide(pred, a, b, w)
        return self.facts.decide("ne", cond, K(0), 1)

    # ------------------------------------------------------------ pointers
    def split(self, p):
        """(base atom, offset) of a pointer value, or (None, p)."""
        base = None
        for at, c in p.t:
            if c == 1 and (at[0] == "obj" or self.eng.is_ptr(at)):
                if base is not None:
                    if base[0] == "obj":
                        continue
                base = at
        if base is None:
            return None, p
        return base, sub(p, A(base))

    def isnull(self, p):
        """True/False/None."""
        if not p.t:
            return p.c == 0
        f = self.facts
        base, off = self.split(p)
        if base is not None and base[0] == "obj":
            return False
        return f.decide("eq", p, K(0), 64)

    # ------------------------------------------------------------ typed cells
    def load_cell(self, base, off, cls, ty, inst):
        key = (base, off)
        v = self.mem.get(key)
        if v is not None:
            return v[0]
        # equal offset under facts
        fill = self.fillof(base)
        if fill == "zero":
            same = [k for k in self.mem if k[0] == base]
            if all(sub(k[1], off).t == () for k in same):
                return K(0)
        if fill == "init":
            g = self.eng.global_cell(base, off, ty)
            if g is not None:
                return g
        w = ty.bits if ty.kind == "int" else 64
        if fill == "undef":
            at = ("leaf", "uninit", base, off, self.cver.get(cls, 0), w)
        else:
            at = ("leaf", "mem", base, off, (self.cver.get(cls, 0), self.bver.get(base, 0), cls), w)
        if ty.kind == "ptr":
            self.eng.ptrs.add(at)
        self.mem[key] = (A(at), cls)
        return A(at)

    def store_cell(self, base, off, cls, val, size):
        f = self.facts
        drop = []
        for (b, o), (v, c) in self.mem.items():
            if b == base:
                if o == off:
                    continue
                d = sub(o, off)
                if not d.t:
                    if abs(d.c) >= 1:
                        if c[0] == "t" and cls[0] == "t" and abs(d.c) < size:
                            drop.append((b, o))
                        continue
                if c != cls and c[0] == "f" and cls[0] == "f":
                    continue
                if f.ne0(d):
                    continue
                drop.append((b, o))
            else:
                if c != cls:
                    continue
                if b[0] == "obj" and base[0] == "obj":
                    continue
                if b[0] == "obj" and b not in self.escaped or base[0] == "obj" and base not in self.escaped:
                    continue
                if f.ne0(sub(A(b), A(base))) and not o.t and not off.t and o == off:
                    continue
                drop.append((b, o))
        for k in drop:
            del self.mem[k]
        self.cver[cls] = self.eng.fresh_id()
        self.mem[(base, off)] = (val, cls)

    def fillof(self, base):
        v = self.fill.get(base)
        if v is not None:
            return v
        return self.eng.default_fill(base)

    def escape(self, v):
        for at, c in v.t:
            if at[0] == "obj" and at not in self.escaped:
                self.escaped = self.escaped | {at}

    # ------------------------------------------------------------ strings
    def src(self, base, off):
        return ("src", base, off, self.bver.get(base, 0))

    def strlen_atom(self, base, ver):
        return A(("leaf", "strlen", base, ver, 64))

    def plen(self, parts):
        """Length of a content, as a linear form (None if unknown)."""
        if parts is None:
            return None
        r = K(0)
        for p in parts:
            if p[0] == "lit":
                r = addc(r, len(p[1]))
            elif p[0] == "byte":
                r = addc(r, 1)
            elif p[0] == "src":
                x = sub(self.strlen_atom(p[1], p[3]), p[2])
                if p[2].t or p[2].c:
                    self.addge(x)
                r = add(r, x)
            elif p[0] == "sub":
                r = add(r, p[3])
            elif p[0] == "fmt":
                r = add(r, A(("leaf", "fmtlen", p[1], p[2], 64)))
            else:
                r = add(r, A(("leaf", "unklen", p, 64)))
        return r

    def write_byte(self, base, off, val):
        lg = self.log.get(base, ())
        # an exact overwrite of an earlier byte entry can replace it if it is the last one
        if len(lg) > 64:
            self.havoc_str(base)
            return
        self.log[base] = lg + ((off, "b", val, None, None),)

    def write_str(self, base, off, parts, term, total):
        if parts is None:
            self.havoc_str(base)
            return
        lg = self.log.get(base, ())
        if off == K(0) and term:
            lg = ()
            if self.fillof(base) in ("ext",):
                pass
        self.log[base] = lg + ((off, "S", parts, term, total),)

    def havoc_str(self, base):
        self.log[base] = ()
        self.fill[base] = "ext"
        self.bver[base] = self.eng.fresh_id()

    def read_byte(self, base, off):
        f = self.facts
        lg = self.log.get(base, ())
        for k in range(len(lg) - 1, -1, -1):
            woff, kind, data, term, total = lg[k]
            d = sub(off, woff)
            if kind == "b":
                if not d.t and d.c == 0:
                    return data
                if f.ne0(d):
                    continue
                return A(("leaf", "byte?", base, off, self.eng.fresh_id(), 8))
            if f.gt0(scale(d, -1)):
                continue
            if not f.ge0(d):
                return A(("leaf", "byte?", base, off, self.eng.fresh_id(), 8))
            r = self._index(data, d, term, total)
            if r == "past":
                continue
            if r is None:
                return A(("leaf", "byte?", base, off, self.eng.fresh_id(), 8))
            return r
        fill = self.fillof(base)
        if fill == "zero":
            return K(0)
        if fill == "init":
            v = self.eng.global_byte(base, off)
            if v is not None:
                return v
        if fill == "undef":
            return A(("leaf", "uninit8", base, off, self.bver.get(base, 0), 8))
        return self.src_byte(base, off, self.bver.get(base, 0))

    def src_byte(self, base, off, ver):
        if base[0] == "obj" and not off.t:
            v = self.eng.global_byte(base, off) if self.fillof(base) == "init" else None
            if v is not None:
                return v
        return A(("leaf", "mem8", base, off, ver, 8))

    def _index(self, parts, d, term, total):
        f = self.facts
        pos = K(0)
        for i, p in enumerate(parts):
            rel = sub(d, pos)
            last = i == len(parts) - 1
            if p[0] == "lit":
                n = K(len(p[1]))
                if not rel.t and 0 <= rel.c < len(p[1]):
                    return K(p[1][rel.c])
                if not f.ge0(sub(rel, n)):
                    return None
            elif p[0] == "byte":
                n = K(1)
                if not rel.t and rel.c == 0:
                    return p[1]
                if not f.ge0(addc(rel, -1)):
                    return None
            elif p[0] == "src":
                n = sub(self.strlen_atom(p[1], p[3]), p[2])
                if last and f.ge0(rel):
                    # at most the terminator, which is the source's own
                    if not f.gt0(sub(rel, n)):
                        return self.src_byte(p[1], add(p[2], rel), p[3])
                    return "past"
                if f.ge0(addc(sub(n, rel), -1)) and f.ge0(rel):
                    return self.src_byte(p[1], add(p[2], rel), p[3])
                if not f.ge0(sub(rel, n)):
                    return None
            elif p[0] == "sub":
                n = p[3]
                if f.ge0(addc(sub(n, rel), -1)) and f.ge0(rel):
                    return self.src_byte(p[1], add(p[2], rel), p[4])
                if not f.ge0(sub(rel, n)):
                    return None
            else:
                return None
            pos = add(pos, n)
        rel = sub(d, pos)
        if f.eq0(rel):
            return K(0) if term else "past"
        if f.gt0(rel):
            return "past"
        return None

    def content(self, base, off, depth=0):
        """Content of the string at base+off as normalised parts, or None."""
        if base is None:
            return None
        f = self.facts
        lg = self.log.get(base, ())
        pos, parts = off, []
        for _ in range(40):
            # the latest write that covers pos, and the earliest later-written boundary above pos
            cover, unknown = None, False
            for k in range(len(lg) - 1, -1, -1):
                woff, kind, data, term, total = lg[k]
                d = sub(pos, woff)
                if kind == "b":
                    if f.eq0(d):
                        cover = k
                        break
                    if not f.ne0(d):
                        unknown = True
                        break
                else:
                    end = add(total, K(1)) if term else total
                    if f.ge0(d) and f.gt0(sub(end, d)):
                        cover = k
                        break
                    if f.gt0(scale(d, -1)) or f.ge0(sub(d, end)):
                        continue
                    if f.ge0(d) and term and f.ge0(sub(total, d)):
                        cover = k
                        break
                    unknown = True
                    break
            if unknown:
                return None
            later = lg[cover + 1:] if cover is not None else lg
            cut = None
            for (woff, kind, data, term, total) in later:
                d = sub(woff, pos)
                if f.gt0(d):
                    if cut is None or f.gt0(sub(cut, d)):
                        cut = d
                    elif not f.ge0(sub(d, cut)):
                        return None
                elif not f.gt0(scale(d, -1)):
                    if not (kind == "b" and f.ne0(d)):
                        return None
            if cover is None:
                fill = self.fillof(base)
                if fill == "zero":
                    return norm(parts)
                if fill == "undef":
                    return None
                if fill == "init":
                    b = self.eng.global_tail(base, pos)
                    if b is None:
                        return None
                    p = (("lit", b),) if b else ()
                    done = True
                else:
                    p = (("src", base, pos, self.bver.get(base, 0)),)
                    done = True
            else:
                woff, kind, data, term, total = lg[cover]
                if kind == "b":
                    v = f.values(data)
                    if v == {0}:
                        return norm(parts)
                    if v is not None and 0 in v:
                        # may or may not end here
                        return None
                    parts.append(("byte", data))
                    pos = addc(pos, 1)
                    continue
                d = sub(pos, woff)
                if not f.gt0(sub(total, d)) and term and f.eq0(sub(total, d)):
                    return norm(parts)
                p = self.tail(data, d)
                if p is None:
                    return None
                done = term
            n = self.plen(p)
            if cut is not None and not f.ge0(sub(cut, addc(n, 1))):
                # a later write may lie inside this piece
                if not f.ge0(sub(n, cut)):
                    # it may also lie beyond the end: only harmless if certainly beyond
                    return None
                h = self.head(p, cut)
                if h is None:
                    return None
                parts += list(h)
                pos = add(pos, cut)
                continue
            parts += list(p)
            if done:
                return norm(parts)
            pos = add(pos, n)
        return None

    def tail(self, parts, d):
        f = self.facts
        if not d.t and d.c == 0:
            return tuple(parts)
        pos = K(0)
        for i, p in enumerate(parts):
            rel = sub(d, pos)
            n = self.plen((p,))
            if f.eq0(rel):
                return tuple(parts[i:])
            last = i == len(parts) - 1
            if f.ge0(rel) and (f.gt0(sub(n, rel)) or (last and f.ge0(sub(n, rel))) or (last and p[0] == "src" )):
                if p[0] == "lit" and not rel.t:
                    return (("lit", p[1][rel.c:]),) + tuple(parts[i + 1:])
                if p[0] == "src":
                    return (("src", p[1], add(p[2], rel), p[3]),) + tuple(parts[i + 1:])
                if p[0] == "sub":
                    return (("sub", p[1], add(p[2], rel), sub(p[3], rel), p[4]),) + tuple(parts[i + 1:])
                return None
            if not f.ge0(sub(rel, n)):
                return None
            pos = add(pos, n)
        if f.eq0(sub(d, pos)):
            return ()
        return None

    def head(self, parts, n):
        f = self.facts
        out, pos = [], K(0)
        for p in parts:
            m = self.plen((p,))
            rest = sub(n, pos)
            if f.eq0(rest):
                break
            if f.ge0(sub(rest, m)):
                if p[0] == "src":
                    p = ("sub", p[1], p[2], m, p[3])
                out.append(p)
                pos = add(pos, m)
                continue
            if f.ge0(sub(m, rest)) or p[0] == "src":
                if p[0] == "lit" and not rest.t:
                    out.append(("lit", p[1][:rest.c]))
                elif p[0] == "src":
                    out.append(("sub", p[1], p[2], rest, p[3]))
                elif p[0] == "sub":
                    out.append(("sub", p[1], p[2], rest, p[4]))
                else:
                    return None
                pos = n
                break
            return None
        return norm(out)


def join_states(eng, states):
    """The join of several abstract states of the same program point."""
    r = states[0].fork()
    fs = [s.facts for s in states]
    r.ev = Node(tuple(s.ev for s in states if s.ev is not None), None)
    # memory
    r.mem, r.cver = {}, {}
    keys = set()
    for s in states:
        keys |= set(s.mem)
    for k in keys:
        cls = next(s.mem[k][1] for s in states if k in s.mem)
        v0 = next(s.mem[k][0] for s in states if k in s.mem)
        vals = []
        for s in states:
            c = s.mem.get(k)
            vals.append(c[0] if c is not None else s.load_cell(k[0], k[1], cls, eng.cls_ty(cls, v0), None))
        if all(v == vals[0] for v in vals):
            r.mem[k] = (vals[0], cls)
            continue
        ty = eng.cls_ty(cls, v0)
        at = eng.leaf("join", ty.bits if ty.kind == "int" else 64, ptr=ty.kind == "ptr")
        sets = [f.values(v, 300) for f, v in zip(fs, vals)]
        if all(x is not None for x in sets) and ty.kind == "int":
            u = frozenset().union(*sets)
            if len(u) <= 64:
                eng.doms[at] = u
        lo = min(f.lower(v) for f, v in zip(fs, vals))
        hi = max(f.upper(v) for f, v in zip(fs, vals))
        eng.ivs[at] = (max(lo, 0 if ty.kind == "ptr" else -INF), hi)
        if ty.kind == "ptr" and any(v == K(0) for v in vals):
            eng.nullable.add(at)
        r.mem[k] = (A(at), cls)
    for c in set().union(*[set(s.cver) for s in states]):
        vs = {s.cver.get(c) for s in states}
        r.cver[c] = vs.pop() if len(vs) == 1 else eng.fresh_id()
    # facts
    fs = [s.facts for s in states]
    r.dom, r.iv = {}, {}
    for at in set().union(*[set(s.dom) for s in states]):
        ds = [f.domof(at) for f in fs]
        if all(d is not None for d in ds):
            r.dom[at] = frozenset().union(*ds)
    for at in set().union(*[set(s.iv) for s in states]):
        bs = [f.bound(at) for f in fs]
        r.iv[at] = (min(b[0] for b in bs), max(b[1] for b in bs))
    lins = []
    for x in dict.fromkeys(x for s in states for x in s.lin):
        if all(x in s.lin or f.ge0(x, 2) for s, f in zip(states, fs)):
            lins.append(x)
    r.lin = tuple(lins)
    r.ne = frozenset(x for x in set().union(*[s.ne for s in states]) if all(f.ne0(x) for f in fs))
    p0 = [p for p in states[0].pred if all(p in s.pred for s in states[1:])]
    r.pred = tuple(p0)
    r.noc = frozenset.intersection(*[s.noc for s in states])
    # character data
    r.log, r.fill, r.bver = {}, {}, {}
    for b in set().union(*[set(s.log) | set(s.fill) | set(s.bver) for s in states]):
        logs = {s.log.get(b, ()) for s in states}
        fills = {s.fillof(b) for s in states}
        vers = {s.bver.get(b, 0) for s in states}
        if len(logs) == len(fills) == len(vers) == 1:
            if logs != {()}:
                r.log[b] = logs.pop()
            if b in states[0].fill:
                r.fill[b] = fills.pop()
            if vers != {0}:
                r.bver[b] = vers.pop()
            continue
        if any(b[0] == "obj" and b not in s.heap and b not in s.log and b not in s.fill for s in states) and \
                not (isinstance(b[1], str) and b[1].startswith("@")):
            # exists on some paths only: nothing refers to it after the join unless those paths agree
            x = next(s for s in states if b in s.log or b in s.fill or b in s.bver)
            if b in x.log:
                r.log[b] = x.log[b]
            if b in x.fill:
                r.fill[b] = x.fill[b]
            if b in x.bver:
                r.bver[b] = x.bver[b]
            continue
        r.log[b], r.fill[b], r.bver[b] = (), "ext", eng.fresh_id()
    # heap and handles
    r.heap, r.handles = {}, {}
    for o in set().union(*[set(s.heap) for s in states]):
        hs = [s.heap[o] for s in states if o in s.heap]
        kinds = {h[0] for h in hs}
        if len(kinds) == 1:
            if kinds == {"freed"} and len(hs) < len(states) and o[0] != "obj":
                r.heap[o] = ("maybe-freed",) + hs[0][1:]
            else:
                r.heap[o] = hs[0]
        elif kinds & {"freed", "maybe-freed"}:
            r.heap[o] = ("maybe-freed",) + next(h for h in hs if h[0] in ("freed", "maybe-freed"))[1:]
        else:
            r.heap[o] = hs[0]
    for o in set().union(*[set(s.handles) for s in states]):
        hs = [s.handles[o] for s in states if o in s.handles]
        if len({h[0] for h in hs}) == 1:
            r.handles[o] = hs[0]
        else:
            r.handles[o] = ("maybe-closed",) + hs[0][1:]
    r.calls = frozenset().union(*[s.calls for s in states])
    r.escaped = frozenset().union(*[s.escaped for s in states])
    if len({s.fs for s in states}) > 1:
        r.fs = eng.fresh_id()
    r.statmem = {k: v for k, v in states[0].statmem.items() if all(s.statmem.get(k) == v for s in states[1:])}
    r._facts = None
    return r


def merge(eng, results, limit, hard=False):
    """Joins result states of a call that agree on the returned value and on what was opened or renamed."""
    if len(results) <= (1 if hard else limit):
        return results
    groups = {}
    for s, rv in results:
        k = (rv, s.fs, frozenset((h, v[0]) for h, v in s.handles.items() if v[0] != "closed"))
        if hard:
            ptr = any(eng.is_ptr(at) or at[0] == "obj" for at, c in rv.t)
            k = (("null" if not rv.t else "ptr"), s.fs) if ptr or not rv.t else k
        groups.setdefault(k, []).append((s, rv))
    out = []
    for k, ss in groups.items():
        if len(ss) == 1:
            out.append(ss[0])
            continue
        rv = ss[0][1]
        if any(r != rv for _, r in ss):
            at = eng.leaf("join", 64, ptr=True)
            eng.ivs[at] = (1, INF) if all(s.isnull(r) is False for s, r in ss) else (0, INF)
            rv = A(at)
        out.append((join_states(eng, [s for s, _ in ss]), rv))
    return out


def norm(parts):
    out = []
    for p in parts:
        if p[0] == "byte" and not p[1].t:
            p = ("lit", bytes([p[1].c & 255]))
        if p[0] == "lit" and not p[1]:
            continue
        if p[0] == "sub" and p[3] == K(0):
            continue
        if out:
            q = out[-1]
            if q[0] == "lit" and p[0] == "lit":
                out[-1] = ("lit", q[1] + p[1])
                continue
            if q[0] == "sub" and p[0] == "src" and q[1] == p[1] and q[4] == p[3] and add(q[2], q[3]) == p[2]:
                out[-1] = ("src", q[1], q[2], q[4])
                continue
            if q[0] == "sub" and p[0] == "sub" and q[1] == p[1] and q[4] == p[4] and add(q[2], q[3]) == p[2]:
                out[-1] = ("sub", q[1], q[2], add(q[3], p[3]), q[4])
                continue
        out.append(p)
    return tuple(out)


def show_parts(parts):
    if parts is None:
        return "<unknown>"
    out = []
    for p in parts:
        if p[0] == "lit":
            out.append(repr(p[1].decode("latin-1")))
        elif p[0] == "src":
            out.append("%s[%s..]" % (show(p[1]), show(p[2])))
        elif p[0] == "sub":
            out.append("%s[%s+:%s]" % (show(p[1]), show(p[2]), show(p[3])))
        elif p[0] == "byte":
            out.append("<%s>" % show(p[1]))
        else:
            out.append(str(p[0]))
    return " . ".join(out) or "''"


class LoopInfo:
    def __init__(self, header):
        self.header, self.blocks, self.backs = header, {header}, []


def loops_of(fn):
    """Natural loops (merged per header) and the dominator relation of a function."""
    if hasattr(fn, "_loops"):
        return fn._loops
    order, seen = [], set()
    stack = [(fn.order[0], iter(fn.blocks[fn.order[0]].succ))]
    seen.add(fn.order[0])
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(fn.blocks[s].succ)))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    dom = {b: set(rpo) for b in rpo}
    dom[rpo[0]] = {rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [dom[p] for p in fn.blocks[b].pred if p in idx]
            n = set.intersection(*ps) | {b} if ps else {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    loops = {}
    irreducible = False
    for b in rpo:
        for s in fn.blocks[b].succ:
            if s in dom[b]:
                L = loops.setdefault(s, LoopInfo(s))
                L.backs.append(b)
                work = [b]
                while work:
                    x = work.pop()
                    if x not in L.blocks:
                        L.blocks.add(x)
                        work += [p for p in fn.blocks[x].pred if p in idx]
            elif idx[s] <= idx[b]:
                irreducible = True
    fn._loops = (loops, dom, irreducible)
    return fn._loops
