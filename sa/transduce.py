"""String-to-string functions as transducers.

A cleaner reads its argument from left to right and appends to the buffer it returns.  From the fixpoint of its loops
the transducer is read off: its states are the loop headers (with the finite part of their variables), its transitions
the paths through one iteration: which bytes they examine and under what condition, how far they advance in the input
and what they append to the output.  The transducer is then compared with a reference machine by building the product
of the two (a simulation): every reachable pair of states, every byte class; a path whose output or advance differs
from the reference's for some admitted bytes is a violation, and is reported with those bytes.
"""
import itertools

from engine import BYTES
from terms import *  # noqa: F401,F403


class Unsure(Exception):
    """The code is not of a form this comparison understands."""


class Need(Exception):
    def __init__(self, k):
        self.k = k


class Mismatch(Exception):
    pass


class Missing:
    """What the reference wanted to know and the path never asked."""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return self.what


class Str:
    """A whole string as an item of the output."""

    def __init__(self, atom, what):
        self.atom, self.what = atom, what

    def __repr__(self):
        return "<%s>" % self.what


# ---------------------------------------------------------------- paths

class Var:
    """A variable of a loop: a phi, or a memory cell the loop changes."""

    def __init__(self, lp, key, cell):
        self.lp, self.key, self.cell = lp, key, cell

    def head(self, h):
        return h.mem[self.key][0] if self.cell else h.pv[self.key]

    def next(self, s):
        if self.cell:
            v = s.mem.get(self.key)
            return v[0] if v is not None else None
        return s.phi_next[self.key]

    def init(self):
        return self.lp.mdesc[self.key]["init"] if self.cell else self.lp.init[self.key]

    def desc(self):
        return self.lp.mdesc[self.key]["d"] if self.cell else self.lp.desc[self.key]


def variables(lp):
    return [Var(lp, k, False) for k in lp.desc] + [Var(lp, k, True) for k in lp.mdesc]


class Path:
    """One path from a loop header (or the start) to the next header or the end."""

    def __init__(self, lp, h, s, nodes):
        self.lp, self.h, self.s, self.nodes = lp, h, s, nodes
        self.to = None          # Loop, or None for the end
        self.back = False
        self.rv = None

    def events(self):
        return [n.event for n in self.nodes if n.event is not None]

    def loc(self):
        for e in reversed(self.events()):
            if e.inst is not None and e.kind not in ("loop", "loop-exit") and e.inst.loc().split(":")[-1] != "0":
                return e.loc()
        if self.lp is not None:
            for b in sorted(self.lp.info.blocks):
                for i in self.lp.fn.blocks[b].insts:
                    if not i.loc().endswith(":0"):
                        return "%s (in %s)" % (i.loc(), self.lp.fn.name)
        return "?"


def chain(s):
    out, n = [], s.ev
    while n is not None:
        out.append(n)
        if len(n.prev) > 1:
            raise Unsure("paths were joined")
        n = n.prev[0] if n.prev else None
    out.reverse()
    return out


def paths_of(results):
    """(paths, loops) of a function's results: top-level loops only."""
    loops, paths, seen = {}, [], set()
    for s, rv in results:
        nodes = chain(s)
        depth, cur, seg, pre = [], None, [], None
        for n in nodes:
            e = n.event
            if e is None:
                continue
            if e.kind == "loop":
                if not depth:
                    lp = e.x["loop"]
                    h = next((h for h in lp.heads if h.hnode is n), None)
                    if h is None:
                        raise Unsure("a loop whose header state is not known")
                    loops[id(lp)] = lp
                    k = (cur and (id(cur[0]), id(cur[1])), id(lp), tuple(x.uid for x in seg))
                    if k not in seen:
                        seen.add(k)
                        p = Path(cur[0] if cur else None, cur[1] if cur else None, lp.pre, seg)
                        p.to = lp
                        paths.append(p)
                    cur, seg = (lp, h), []
                depth.append(e.x["loop"])
                continue
            if e.kind == "loop-exit":
                if depth:
                    depth.pop()
                continue
            seg.append(n)
        p = Path(cur[0] if cur else None, cur[1] if cur else None, s, seg)
        p.rv = rv
        paths.append(p)
    for lp in loops.values():
        for h, s in lp.backs:
            seg, n = [], s.ev
            while n is not None and n is not h.hnode:
                seg.append(n)
                n = n.prev[0] if n.prev else None
            p = Path(lp, h, s, seg[::-1])
            p.to, p.back = lp, True
            paths.append(p)
    return paths, list(loops.values())


def offset(st, v, base):
    b, o = st.split(v)
    return o if b == base else None


class Machine:
    """The transducer of one function: input argument atom `src`, results as found."""

    def __init__(self, results, src, ins=None):
        self.src = src
        live = [(s, rv) for s, rv in results if rv.t]
        self.null = [(s, rv) for s, rv in results if not rv.t]
        self.paths, self.loops = paths_of(live)
        outs = set()
        for p in self.paths:
            if p.rv is not None:
                b, o = p.s.split(p.rv)
                if b is None:
                    raise Unsure("the returned value is not a known object")
                if o != K(0):
                    raise Unsure("the returned pointer is not the start of its object")
                outs.add(b)
        self.outs = outs
        self.cur = {}
        for lp in self.loops:
            vs = variables(lp)
            i = self.input_var(lp, vs)
            o = self.output_var(lp, vs)
            self.cur[id(lp)] = (i, o, [v for v in vs if v not in (i, o)])
        self.bypath = {}
        for p in self.paths:
            self.bypath.setdefault((id(p.lp), id(p.h)) if p.lp is not None else None, []).append(p)

    # -- cursors
    def input_var(self, lp, vs):
        best = []
        for v in vs:
            n = 0
            for h in lp.heads:
                x = v.head(h)
                o = offset(h, x, self.src)
                if o is None and any(h.eng.is_ptr(a) for a, _ in x.t):
                    continue
                if o is None:
                    o = x
                if not o.t and v.desc()[0] == "same":
                    continue
                for h2, s in lp.backs:
                    if h2 is not h:
                        continue
                    n += sum(1 for at in self.reads(s) if not sub(at[3], o).t and (o.t or not at[3].t))
            if n:
                best.append((n, v))
        if not best:
            return None
        m = max(n for n, _ in best)
        top = [v for n, v in best if n == m]
        ptr = [v for v in top if any(offset(h, v.head(h), self.src) is not None for h in lp.heads)]
        return (ptr or top)[0]

    def reads(self, s):
        got = {at for at in s.dom if at[0] == "leaf" and at[1] == "mem8" and at[2] == self.src}
        for b, lg in s.log.items():
            for w in lg:
                if isinstance(w[2], Lin):
                    got |= {at for at in atoms_of(w[2]) if at[0] == "leaf" and at[1] == "mem8" and at[2] == self.src}
                else:
                    for q in w[2]:
                        if q[0] == "sub" and q[1] == self.src:
                            got.add(("leaf", "mem8", q[1], q[2], q[4], 8))
        return got

    def output_var(self, lp, vs):
        for v in vs:
            if v.desc()[0] != "same" and any(offset(h, v.head(h), b) is not None for h in lp.heads for b in self.outs):
                return v
        for v in vs:
            d = v.desc()
            if d[0] != "aff" and d[0] != "iset":
                continue
            for h, s in lp.backs:
                x = v.head(h)
                for b in self.outs:
                    lg = s.log.get(b, ())
                    if lg and not any(h.eng.is_ptr(a) for a, _ in x.t) and x.t and not sub(lg[0][0], x).t:
                        return v
        return None

    def inpos(self, lp, h):
        v = self.cur[id(lp)][0]
        if v is None:
            return None
        x = v.head(h)
        o = offset(h, x, self.src)
        return x if o is None else o

    def value_pos(self, st, x):
        o = offset(st, x, self.src)
        return x if o is None else o

    def outpos(self, st, x):
        for b in self.outs:
            o = offset(st, x, b)
            if o is not None:
                return o
        if any(st.eng.is_ptr(a) for a, _ in x.t):
            return None
        return x

    # -- what a path does
    def start_in(self, p):
        if p.lp is None:
            return K(0)
        return self.inpos(p.lp, p.h)

    def end_in(self, p):
        if p.to is None:
            return None
        v = self.cur[id(p.to)][0]
        if v is None:
            raise Unsure("a loop without a position in the input")
        x = v.next(p.s) if p.back else v.init()
        if x is None:
            raise Unsure("the position in the input is not known after an iteration")
        return self.value_pos(p.s, x)

    def appended(self, p):
        """Items the path appends, and whether it terminated the string (end paths)."""
        v = self.cur[id(p.lp)][1] if p.lp is not None else None
        s = p.s
        bases = [s.split(p.rv)[0]] if p.rv is not None else sorted(self.outs, key=repr)
        lgs = [(b, s.log.get(b, ())) for b in bases]
        for b in bases:
            if p.h is not None and s.bver.get(b) != p.h.bver.get(b) or s.fillof(b) != (
                    p.h.fillof(b) if p.h is not None else "undef"):
                raise Unsure("what is written to the output is not known")
        lgs = [(b, lg) for b, lg in lgs if lg]
        if p.lp is None:
            start = K(0)
        elif v is None:
            start = None
        else:
            start = self.outpos(p.h, v.head(p.h))
        if v is None and p.lp is not None:
            # this loop has no output: what comes after it starts at the beginning
            start = K(0)
            for b, lg in lgs:
                hl = p.h.log.get(b, ())
                if lg[:len(hl)] != hl:
                    raise Unsure("the output was rewritten")
        if not lgs:
            return [], False
        if len(lgs) > 1:
            raise Unsure("several output buffers")
        b, lg = lgs[0]
        if start is None:
            raise Unsure("the position in the output is not known")
        return self.pieces(s, b, lg, start, p)

    def pieces(self, s, b, lg, start, p):
        f = s.facts
        out, pos, soft = [], start, False
        # out: [(offset, item)]
        for (off, kind, data, term, total) in lg:
            d = sub(off, pos)
            if not f.eq0(d):
                # an overwrite of the terminator, or of an item just written?
                k = next((j for j, (o, it) in enumerate(out) if f.eq0(sub(off, o))), None)
                if k is None:
                    raise Unsure("a write at %s where %s comes next" % (show(off)[:60], show(pos)[:60]))
                if k != len(out) - 1 or kind != "b" or out[k][1][0] != "b":
                    raise Unsure("an earlier part of the output is overwritten")
                out[k] = (off, ("b", data))
                continue
            if kind == "b":
                out.append((off, ("b", data)))
                pos = addc(off, 1)
            else:
                cur = off
                for q in data:
                    for it, n in self.flat(s, q):
                        out.append((cur, it))
                        cur = add(cur, n)
                pos = cur
                if term:
                    out.append((pos, ("b", K(0))))
                    pos = addc(pos, 1)
        end = None
        if p.to is not None:
            v = self.cur[id(p.to)][1]
            if v is not None:
                x = v.next(s) if p.back else v.init()
                end = self.outpos(s, x) if x is not None else None
        if end is None and p.to is not None:
            raise Unsure("the position in the output is not known after an iteration")
        if p.to is not None:
            # the string may be kept terminated along the way
            if out and out[-1][1] == ("b", K(0)) and f.eq0(sub(out[-1][0], end)):
                out.pop()
                pos = end
            if not f.eq0(sub(end, pos)):
                raise Mismatch("the output position moves to %s although what was written ends at %s" % (
                    show(end)[:80], show(pos)[:80]))
            return [it for _, it in out], False
        if out and out[-1][1][0] == "b" and f.values(out[-1][1][1], 300) == {0}:
            return [it for _, it in out[:-1]], True
        return [it for _, it in out], False

    def flat(self, s, q):
        if q[0] == "lit":
            for c in q[1]:
                yield ("b", K(c)), K(1)
        elif q[0] == "byte":
            yield ("b", q[1]), K(1)
        elif q[0] == "sub" and not q[3].t and q[3].c <= 16:
            for k in range(q[3].c):
                yield ("b", s.src_byte(q[1], addc(q[2], k), q[4])), K(1)
        elif q[0] in ("src", "sub"):
            n = s.plen((q,))
            yield ("s", q), n
        else:
            raise Unsure("unknown text is appended")


# ---------------------------------------------------------------- comparison

class Compare:
    """Product of a Machine with a reference machine.

    The reference: start -> mode; step(mode, get, env) -> (consumed, items, mode) or ("end", items)."""

    def __init__(self, m, ref, report):
        self.m, self.ref, self.report = m, ref, report
        self.checked = self.combos = 0
        self.pairs = set()

    def run(self):
        todo = [(None, None, (), self.ref.start, ())]
        seen = set()
        while todo:
            node = todo.pop()
            if node in seen:
                continue
            seen.add(node)
            if len(seen) > 3000:
                raise Unsure("the product does not stay finite")
            lp, hi, asg, mode, ahead = node
            key = None if lp is None else (lp, hi)
            for p in self.m.bypath.get(key, ()):
                for nxt in self.path(p, dict(asg), mode, dict(ahead)):
                    todo.append(nxt)
        self.pairs = seen

    def byte(self, p, in0, k):
        """(atom, domain) of input byte k of a path."""
        s, f = p.s, p.s.facts
        ver = s.bver.get(self.m.src, 0)
        off = addc(in0, k)
        at = ("leaf", "mem8", self.m.src, off, ver, 8)
        for x in self.known_bytes(p):
            if x != at and f.eq0(sub(x[3], off)):
                at = x
                break
        d = f.domof(at)
        d = f.admitted(at, d)
        n = sub(s.strlen_atom(self.m.src, ver), off)
        if f.ge0(addc(n, -1)):
            d = d - {0}
        elif f.eq0(n):
            d = d & {0}
        return at, d

    def known_bytes(self, p):
        r = getattr(p, "_kb", None)
        if r is None:
            r = p._kb = [at for at in self.m.reads(p.s)]
        return r

    def path(self, p, asg0, mode, ahead):
        m = self.m
        in0 = m.start_in(p)
        if in0 is None:
            raise Unsure("a loop without a position in the input")
        s, f = p.s, p.s.facts
        err = None
        try:
            items, term = m.appended(p)
        except Mismatch as e:
            items, term, err = [], False, str(e)
        eaten = None
        if p.to is not None:
            d = sub(m.end_in(p), in0)
            if d.t:
                raise Unsure("the advance in the input is not a constant (%s)" % show(d)[:80])
            eaten = d.c
            if eaten < 0:
                raise Unsure("the input position moves back")
        # finite variables of the state
        fixed = {}
        for at, v in asg0.items():
            fixed[at] = v
            d = f.domof(at)
            if d is not None and v not in d:
                return
        env = Env(self, p)
        seen = set()
        work = [dict()]
        while work:
            bytes_ = work.pop()
            self.combos += 1
            full = dict(fixed)
            ok = True
            for k, v in bytes_.items():
                at, d = self.byte(p, in0, k)
                if v not in d or (k in ahead and v not in ahead[k]):
                    ok = False
                    break
                full[at] = v
            if not ok or not self.feasible(f, full):
                continue
            try:
                env.set(full)
                r = self.follow(p, env, items, term, eaten, mode, bytes_, full, err)
            except Need as n:
                at, d = self.byte(p, in0, n.k)
                if n.k in ahead:
                    d = d & ahead[n.k]
                for v in self.ref.choose(n.k, d, bytes_):
                    work.append({**bytes_, n.k: v})
                continue
            self.checked += 1
            if r is None:
                continue
            for nxt in self.successors(p, full, r, bytes_, eaten, in0, ahead):
                if nxt not in seen:
                    seen.add(nxt)
                    yield nxt

    def feasible(self, f, full):
        for c, truth in f.pred:
            try:
                if bool(ev_atom(c, full)) != truth:
                    return False
            except Unknown:
                pass
        return True

    def follow(self, p, env, items, term, eaten, mode, bytes_, full, err):
        """Runs the reference over what the path consumed; the new mode, or None when a mismatch was reported."""
        pos, want, m = 0, [], mode
        where = p.loc()

        def get(k):
            if pos + k not in bytes_:
                raise Need(pos + k)
            return bytes_[pos + k]
        steps = 0
        while True:
            if eaten is not None and pos == eaten:
                break
            if eaten is not None and pos > eaten:
                if self.stateful(p):
                    raise Unsure("the reference consumes %d bytes, this path %d" % (pos, eaten))
                self.wrong(where, bytes_, mode, env, "advances by %d where %d belong together" % (eaten, pos))
                return None
            r = self.ref.step(m, get, env)
            if r[0] == "end":
                if eaten is not None:
                    self.wrong(where, bytes_, mode, env, "goes on at the end of the input")
                    return None
                want += r[1]
                break
            n, its, m = r
            want += its
            pos += n
            steps += 1
            if eaten is None:
                k = self.same(p, env, items[:len(want)], want, full)
                if k is not None or steps > 3:
                    self.wrong(where, bytes_, mode, env, "returns before the end of the input")
                    return None
        if err:
            self.wrong(where, bytes_, mode, env, err)
            return None
        k = self.same(p, env, items, want, full)
        if k is not None:
            self.wrong(where, bytes_, mode, env, "appends %s where %s is due" % (self.text(items, full), self.want(want)))
            return None
        if eaten is None and not term:
            self.wrong(where, bytes_, mode, env, "does not terminate the result")
            return None
        self.report.ok(self.rule, where, None)
        return m

    rule = "transducer"

    def stateful(self, p):
        return any(v.desc()[0] != "same" for v in self.m.cur[id(p.lp)][2]) if p.lp is not None else True

    def wrong(self, where, bytes_, mode, env, what):
        ctx = " ".join("%02x" % bytes_[k] for k in sorted(bytes_)) or "(any)"
        self.report.bad(self.rule, where, "on input bytes [%s]%s%s: %s" % (
            ctx, "" if mode == self.ref.start else " in state %r" % (mode,), env.describe(), what))

    def text(self, items, full):
        out = []
        for it in items:
            if it[0] == "b":
                try:
                    out.append("%02x" % (ev(it[1], full) & 255))
                except Unknown:
                    out.append("?(%s)" % show(it[1])[:60])
            else:
                out.append("<%s>" % show(it[1][1])[:60])
        return "[%s]" % " ".join(out)

    def want(self, items):
        return "[%s]" % " ".join("%02x" % i if isinstance(i, int) else repr(i) for i in items)

    def same(self, p, env, items, want, full):
        """None if equal, else the index of the first difference."""
        f = p.s.facts
        i = 0
        for k, w in enumerate(want):
            if isinstance(w, Str):
                if i < len(items) and items[i][0] == "s":
                    q = items[i][1]
                    n = p.s.plen((q,))
                    if q[1] == w.atom and f.eq0(q[2]) and f.eq0(sub(n, p.s.strlen_atom(q[1], q[-1]))):
                        i += 1
                        continue
                return k
            if isinstance(w, Missing):
                return k
            if i >= len(items) or items[i][0] != "b":
                return k
            try:
                v = ev(items[i][1], full) & 255
            except Unknown as u:
                at = u.args[0]
                if at[0] == "leaf" and at[1] == "mem8" and at[2] == self.m.src:
                    d = sub(at[3], self.m.start_in(p))
                    if not d.t and d.c >= 0:
                        raise Need(d.c)
                v = self.unknown(items[i][1], full)
            if v != w:
                return k
            i += 1
        return None if i == len(items) else len(want)

    def unknown(self, term, full):
        for at in atoms_of(term):
            if at[0] == "op" and at[1] in ("tolower", "toupper", "isupper", "islower", "isalpha"):
                return -1           # depends on the locale
        raise Unsure("an appended byte is not understood: %s" % show(term)[:80])

    def successors(self, p, full, mode, bytes_, eaten, in0, ahead):
        if p.to is None:
            return
        lp = p.to
        s, f = p.s, p.s.facts
        cands = []
        for h in lp.heads:
            doms, ok = [], True
            for v in self.m.cur[id(lp)][2]:
                x = v.next(s) if p.back else v.init()
                hv = v.head(h)
                d = v.desc()
                if d[0] == "same":
                    continue
                if x is None:
                    raise Unsure("a state variable is not known after an iteration")
                at = single(hv)
                if d[0] == "iset" and at is not None and h.eng.default_dom(at) is not None:
                    try:
                        vals = {ev(x, full)}
                    except Unknown:
                        vals = f.values(x, 300)
                    if vals is None:
                        raise Unsure("a state variable is not finite")
                    doms.append([(at, y) for y in sorted(vals)])
                    continue
                if d[0] == "set":
                    if hv in d[1]:
                        if not f.eq0(sub(x, hv)):
                            ok = False
                    elif any(f.eq0(sub(x, e)) for e in d[1]):
                        ok = False
                    continue
            # the cursors' own alternatives
            for v in self.m.cur[id(lp)][:2]:
                if v is not None and v.desc()[0] == "set":
                    x = v.next(s) if p.back else v.init()
                    hv = v.head(h)
                    if hv in v.desc()[1]:
                        if x is None or not f.eq0(sub(x, hv)):
                            ok = False
                    elif x is not None and any(f.eq0(sub(x, e)) for e in v.desc()[1]):
                        ok = False
            if ok:
                for c in itertools.product(*doms):
                    cands.append((h, c))
        # what is already known of the bytes to come
        more = {}
        for at in self.known_bytes(p):
            d = sub(at[3], in0)
            if not d.t and d.c >= eaten and d.c - eaten < 3:
                dm = self.byte(p, in0, d.c)[1]
                if len(dm) < 256:
                    more[d.c - eaten] = frozenset(dm)
        for k, v in bytes_.items():
            if k >= eaten:
                more[k - eaten] = more.get(k - eaten, BYTES) & ahead.get(k, BYTES)
        for k, v in ahead.items():
            if k >= eaten:
                more[k - eaten] = more.get(k - eaten, BYTES) & v
        if p.back and eaten > 0:
            more = {}
        for h, c in cands:
            yield (id(lp), id(h), tuple(sorted(c, key=repr)), mode, tuple(sorted(more.items())))


class Env:
    """What a path knows besides the bytes: its table lookups."""

    def __init__(self, cmp, p):
        self.cmp, self.p = cmp, p
        self.full = {}
        self.asked = []

    def set(self, full):
        self.full = full
        self.asked = []

    def describe(self):
        return "".join(" (%s)" % a for a in self.asked)

    def lookup(self, key, shape=None):
        ref = self.cmp.ref
        for e in self.p.events():
            if e.kind != "call" or e.name != ref.getter:
                continue
            if e.args[0] != A(ref.table):
                continue
            try:
                k = ev(e.args[1], self.full)
            except Unknown:
                continue
            if (k ^ key) & 0xffffffff:
                continue
            if shape is not None:
                shape(e.args[1], self.full)
            n = self.p.s.facts.decide("eq", e.ret, K(0), 64)
            if n is True:
                self.asked.append("no entry for 0x%x" % key)
                return None
            self.asked.append("entry for 0x%x" % key)
            return Str(single(e.ret), "the table's entry for 0x%x" % key)
        self.asked.append("entry for 0x%x" % key)
        return Missing("the table's entry for 0x%x" % key)

    def default(self):
        ref = self.cmp.ref
        s = self.p.s
        c = s.mem.get((ref.table, K(ref.default_off)))
        v = c[0] if c is not None else None
        if v is None:
            self.asked.append("a default")
            return Missing("the table's default")
        n = s.isnull(v)
        if n is True:
            self.asked.append("no default")
            return None
        self.asked.append("a default")
        if single(v) is None:
            return Missing("the table's default")
        return Str(single(v), "the table's default")


# ---------------------------------------------------------------- the extracted transducer applied to given bytes

class Applied(Compare):
    """The transducer itself, with a given table: what it consumes, appends and becomes on given input bytes.

    rows: key -> text, default: text or None; fixed: values of arguments that are not texts."""

    def __init__(self, m, getter, table, default_off, rows, default, fixed=()):
        Compare.__init__(self, m, None, None)
        self.getter, self.table, self.default_off = getter, table, default_off
        self.rows, self.default, self.fixed = rows, default, dict(fixed)
        self.known = {}

    start = frozenset(((None, None, ()),))

    def texts(self, p, full):
        """{atom of a text: its bytes} of a path, or None if it does not happen with this table."""
        out, f = {}, p.s.facts
        for e in p.events():
            if e.kind != "call" or e.name != self.getter or e.args[0] != A(self.table):
                continue
            t = self.rows.get(ev(e.args[1], full) & 0xffffffff)
            n = f.decide("eq", e.ret, K(0), 64)
            if n is not None and n is not (t is None):
                return None
            if t is not None:
                out[single(e.ret)] = t
        c = p.s.mem.get((self.table, K(self.default_off))) if self.table is not None else None
        if c is not None:
            n = p.s.isnull(c[0])
            if n is not None and n is not (self.default is None):
                return None
            if self.default is not None and single(c[0]) is not None:
                out[single(c[0])] = self.default
        return out

    def step(self, node, get):
        """(consumed or None at the end, bytes appended, next node); get(k) raises Need for bytes not yet there."""
        found, late = set(), None
        for lp, hi, asg in node:
            for p in self.m.bypath.get(None if lp is None else (lp, hi), ()):
                try:
                    found |= set(self.happens(p, dict(asg), get))
                except Need as n:
                    late = late or n
        if late is not None:
            raise late
        # paths that differ in nothing that can be seen go on together
        if len({x[:2] for x in found}) != 1:
            raise Unsure("%d ways to go on" % len(found))
        n, out, one = next(iter(found))
        return n, out, None if one is None else frozenset(x[2] for x in found)

    def happens(self, p, asg, get):
        m, s, f = self.m, p.s, p.s.facts
        in0 = m.start_in(p)
        if in0 is None:
            raise Unsure("a loop without a position in the input")
        full = dict(self.fixed)
        for at, v in self.fixed.items():
            d = f.domof(at)
            if d is not None and v not in d or f.decide("eq", A(at), K(v), at[-1]) is False:
                return []
        for at, v in asg.items():
            d = f.domof(at)
            if d is not None and v not in d:
                return []
            full[at] = v
        offs = {0}
        for at in self.known_bytes(p):
            d = sub(at[3], in0)
            if not d.t and d.c >= 0:
                offs.add(d.c)
            elif not d.t:
                continue        # an earlier byte: what matters of it is in the state
        bytes_ = {}
        for k in sorted(offs):
            at, dm = self.byte(p, in0, k)
            v = get(k)
            if v not in dm:
                return []
            full[at] = bytes_[k] = v
            if v == 0:
                break           # nothing after the end is looked at by a path that is taken
        if not self.feasible(f, full):
            return []
        texts = self.texts(p, full)
        if texts is None:
            return []
        items, term = m.appended(p)
        out = bytearray()
        for it in items:
            if it[0] == "b":
                out.append(ev(it[1], full) & 255)
                continue
            q = it[1]
            t = texts.get(q[1])
            if t is None or not f.eq0(q[2]):
                raise Unsure("a text of unknown origin is appended")
            if q[0] == "sub" and not f.eq0(sub(q[3], s.strlen_atom(q[1], q[-1]))):
                raise Unsure("a part of a text is appended")
            out += t
        if p.to is None:
            return [(None, bytes(out), None)]
        d = sub(m.end_in(p), in0)
        if d.t or d.c < 0:
            raise Unsure("the advance in the input is not known")
        for k in range(d.c):
            get(k)
        return [(d.c, bytes(out), n[:3]) for n in self.successors(p, full, None, bytes_, d.c, in0, {})]

    def next(self, state, c):
        """Feeds one byte (0 for the end) to a state (node, bytes waiting): (bytes appended, new state)."""
        key = (state, c)
        if key not in self.known:
            node, wait = state
            wait += bytes((c,))
            out = b""
            for _ in range(64):
                def get(k):
                    if k >= len(wait):
                        raise Need(k)
                    return wait[k]
                try:
                    n, o, node2 = self.step(node, get)
                except Need:
                    break
                out += o
                if n is None:
                    node, wait = None, b""
                    break
                if n == 0 and node2 == node:
                    raise Unsure("no progress")
                node, wait = node2, wait[n:]
                if not wait and n:
                    break
            else:
                raise Unsure("no progress")
            self.known[key] = (out, (node, wait))
        return self.known[key]
