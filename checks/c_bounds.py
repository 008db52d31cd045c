"""C15, C16, C18: accesses stay inside their buffers."""
import runs
import transduce
from bounds import inside, in_string, objsize, split, strengthen, unbounded
from c_filters import GETTER
from interp import Engine
from terms import *  # noqa: F401,F403
from transduce import Compare, Machine, Unsure

CLEANERS = ("clean_safe", "clean_iso8859_1", "clean_utf_8", "clean_uncgi", "clean_wipeup", "clean_lower",
            "clean_max_length")


def lookup_model(eng, st, i, args, name):
    """table_get as a black box: nothing, or a row's text."""
    g = eng.prog.func(i.fn.module, name)
    out = []
    for s, rv in eng.opaque_call(st, i, g, args):
        s2 = s.fork()
        if s.assume_cmp("ne", rv, K(0), 64):
            out.append((s, rv))
        if s2.assume_cmp("eq", rv, K(0), 64):
            out.append((s2, K(0)))
    return out


@runs.memo
def watched(name):
    """A cleaner on any name and any table; every access is an event."""
    p = runs.prog()
    f = p.need(name)
    e = Engine(p, models={"!" + GETTER: lookup_model}, record={"access"}, budget=2000000)
    e.enum_limit = 300
    e.merge_limit = 1 << 30
    r = e.run_root(f)
    return f, runs.Run(e, r, name)


def ratio(eng, f, size, start, L):
    """W and the room at the start, for an object of `size` filled while a name of length L is read from `start` on:
    size - 1 - W * (L - start) = room, or None."""
    z = addc(size, -1)
    for at, c in z.t:
        if at[0] == "op" and at[1] == "mul" and c == 1:
            for x, w in ((at[-2], at[-1]), (at[-1], at[-2])):
                d = sub(x, sub(L, start))
                if not d.t and d.c >= 0:
                    # (L - start + d) * w
                    return w, add(sub(z, A(at)), scale(w, d.c))
    k = dict(z.t).get(single(L), 0) if single(L) is not None else 0
    if k >= 1:
        return K(k), sub(z, scale(sub(L, start), k))
    if not z.t:
        return K(0), z
    return None


class Room(Compare):
    """Amortised bound on what is appended: at every header the room left, beyond W bytes for every byte of the name
    still to come, is at least dist(header); every path consumes some of the name and appends some bytes."""

    def __init__(self, m, run, f, report, rule, name):
        self.m, self.run_, self.report, self.rule, self.name = m, run, report, rule, name
        p = runs.prog()
        ptr = [n for n, t in f.args if t.kind == "ptr"]
        self.table = ("leaf", "arg", ptr[1], 64) if len(ptr) > 1 else None
        self.longest = p.offset("table_t", "max_data_length")
        self.checked = 0

    def weight(self, p, items, W):
        """(sum of the items' lengths) as a*W + b from above, or a reason why it is not bounded."""
        a = b = 0
        fx = p.s.facts
        for it in items:
            if it[0] == "b":
                b += 1
                continue
            q = it[1]
            n = p.s.plen((q,))
            if n is not None and not n.t:
                b += n.c
                continue
            if n is not None and fx.ge0(sub(W, n)):
                a += 1
                continue
            if q[0] in ("src", "sub") and q[1][0] == "leaf" and q[1][1] == "ret" and GETTER in q[1]:
                # a row's text: at most max_data_length (C17)
                c = p.s.mem.get((self.table, K(self.longest)))
                if c is not None and fx.ge0(sub(W, c[0])):
                    a += 1
                    continue
                return None, "a replacement of the table's largest length does not fit into %s bytes per byte of the name" % (
                    show(W)[:80])
            if q[0] in ("src", "sub") and q[1] == self.m.src:
                return None, None
            return None, "text of length %s does not fit into %s bytes per byte of the name" % (show(n)[:80], show(W)[:80])
        return (a, b), None

    def low(self, f, a, W, b):
        """Lower bound of a*W + b."""
        x = addc(scale(W, a), b)
        v = f.lower(x)
        if v > -1 << 60:
            for k in range(64, 0, -1):
                if k * a + b > v and a > 0 and f.ge0(addc(W, -k)):
                    return k * a + b
            return v
        for k in range(64, 0, -1):
            if a > 0 and f.ge0(addc(W, -k)):
                return k * a + b
        return None

    def run(self):
        m = self.m
        start = (None, None, ())
        dist = {}
        todo = [(start, None, None, 0)]
        best = {}
        steps = 0
        while todo:
            node, W, room, d = todo.pop()
            steps += 1
            if steps > 60000:
                self.report.unsure(self.rule, self.name, "the room left does not settle")
                return
            lp, hi, asg = node
            key = None if lp is None else (lp, hi)
            for p in m.bypath.get(key, ()):
                self.follow_(p, node, W, room, d, best, todo)

    def follow_(self, p, node, W, room, d, best, todo):
        m, fx, where = self.m, p.s.facts, p.loc()
        in0 = m.start_in(p)
        if in0 is None:
            raise Unsure("a loop without a position in the input")
        asg = dict(node[2])
        for at, v in asg.items():
            dm = fx.domof(at)
            if dm is not None and v not in dm:
                return
        items, term = m.appended(p)
        L = p.s.strlen_atom(m.src, p.s.bver.get(m.src, 0))
        live = [b for b in m.outs if b in p.s.heap and p.s.heap[b][0] == "live"]
        outv = m.cur[id(p.lp)][1] if p.lp is not None else None
        if W is None and (items or term or p.to is not None and m.cur[id(p.to)][1] is not None):
            if p.rv is not None:
                live = [p.s.split(p.rv)[0]]
            if len(live) != 1:
                raise Unsure("which buffer is filled is not known")
            size = objsize(self.run_.eng, live[0])
            st = in0
            if p.to is not None:
                st = m.end_in(p)
            r = ratio(self.run_.eng, fx, size, st, L) if size is not None else None
            if r is None:
                # the whole of it fits outright?
                raise Unsure("the size %s of the buffer is not a multiple of the name's length" % show(size)[:100])
            W, room = r
            # the room at the start
            d = 0
            lo = None
            if not room.t:
                lo = room.c
            else:
                for k in range(16, -17, -1):
                    if fx.ge0(addc(room, -k)):
                        lo = k
                        break
            if lo is None:
                raise Unsure("the room at the start, %s, is not known" % show(room)[:100])
            d = lo
        eaten = None
        if p.to is not None:
            x = sub(m.end_in(p), in0)
            if x.t:
                if items:
                    raise Unsure("the advance in the input is not a constant (%s)" % show(x)[:80])
                if not fx.ge0(x):
                    raise Unsure("the input position moves back")
                eaten = 0
            else:
                eaten = x.c
                if eaten < 0:
                    raise Unsure("the input position moves back")
        if W is None:
            nd = d
        else:
            w, why = self.weight(p, items, W)
            if w is None:
                if why is None:
                    raise Unsure("a piece of the name of unknown length is copied")
                self.report.bad(self.rule, where, "%s: %s" % (self.name, why))
                return
            k = eaten
            if k is None:
                # the end: bytes of the name known to be left
                k = next((j for j in range(8, -1, -1) if fx.ge0(addc(sub(L, in0), -j))), 0)
            if k - w[0] < 0:
                self.report.bad(self.rule, where, "%s: appends %d texts of up to %s bytes where %d bytes of the name were "
                                "read" % (self.name, w[0], show(W)[:60], k))
                return
            lw = self.low(fx, k - w[0], W, -w[1])
            if lw is None:
                raise Unsure("%s is not bounded below" % show(W)[:80])
            nd = d + lw
            if p.to is None and not term:
                nd += 1
            self.checked += 1
            if nd < 0:
                self.report.bad(self.rule, where, "%s: %d byte(s) more than the buffer holds may be written (%s bytes per "
                                "byte of the name are allowed for)" % (self.name, -nd, show(W)[:60]))
                return
            self.report.ok(self.rule, where)
            if p.to is None:
                return
        if p.to is None:
            return
        for nxt in self.successors(p, asg, None, {}, eaten, in0, {}):
            nn = (nxt[0], nxt[1], nxt[2])
            kk = (nn, W)
            if kk in best and best[kk] <= nd:
                continue
            best[kk] = nd
            todo.append((nn, W, room, nd))


def c15(rep):
    rule = rep.rule("fits", "Whatever a filter appends on any path fits into the buffer it allocated: W bytes are "
                    "allocated per byte of the name, and no path appends more than W times what it consumes beyond what "
                    "was left over before.")
    other = rep.rule("inside", "Every other write lies inside the object it goes to.", required=False)
    names = []
    for name in CLEANERS:
        f, run = watched(name)
        src = ("leaf", "arg", [n for n, t in f.args if t.kind == "ptr"][0], 64)
        names.append(name)
        rep.note(functions=names, paths=len(run.nodes))
        outs = set()
        try:
            if name != "clean_max_length":
                m = Machine(run.results, src)
                outs = m.outs
                if not m.loops:
                    raise Unsure("no loop over the name was found")
                r = Room(m, run, f, rep, rule, name)
                r.run()
                rep.note(transducer_paths=len(m.paths))
        except Unsure as e:
            rep.unsure(rule, name, str(e))
        except transduce.Mismatch as e:
            rep.unsure(rule, name, str(e))
        n = 0
        for _, ev in run.events("store8", "store", "write"):
            b, o = split(run.eng, ev.args[0])
            if b is None or b in outs:
                continue
            size = objsize(run.eng, b)
            if size is None:
                continue
            n += 1
            ln = ev.args[1] if ev.kind == "write" else K(ev.x["size"])
            rep.judge(rule if name == "clean_max_length" else other, ev.loc(), inside(ev.facts, size, o, ln),
                      "%s writes %s bytes at %s of an object of %s" % (name, show(ln)[:80], show(o)[:80], show(size)[:80]))
        rep.note(writes_judged=n)


def c16(rep):
    rule = rep.rule("within the name", "Every byte read from a name, a replacement or a default lies at or before its "
                    "terminating null, and the position in the name never moves past it.")
    term = rep.rule("terminated", "What a filter returns ends with a null byte.", required=False)
    names = []
    for name in CLEANERS:
        f, run = watched(name)
        names.append(name)
        rep.note(functions=names, paths=len(run.nodes))
        src = ("leaf", "arg", [n for n, t in f.args if t.kind == "ptr"][0], 64)
        m = None
        try:
            if name != "clean_max_length":
                m = Machine(run.results, src)
        except Unsure:
            pass
        hyps = {}
        if m is not None and m.loops:
            for p in m.paths:
                where = p.loc()
                in0 = m.start_in(p)
                hyp = ()
                if p.lp is not None and in0 is not None:
                    # the position is within the name at the header: shown for every path that arrives there
                    hyp = (in0, sub(p.s.strlen_atom(src, p.s.bver.get(src, 0)), in0))
                for n in p.nodes:
                    hyps[n.uid] = hyp
                try:
                    end = m.end_in(p)
                except Unsure as e:
                    rep.unsure(rule, where, str(e))
                    continue
                if end is not None:
                    fx = strengthen(p.s.facts, hyp, src, p.s.bver.get(src, 0))
                    rep.judge(rule, where, in_string(fx, p.s.strlen_atom(src, p.s.bver.get(src, 0)), end),
                              "%s moves on to offset %s of the name" % (name, show(end)[:120]))
        n = 0
        for node, ev in run.events():
            if ev.kind == "load" and ev.x.get("size") == 1 or ev.kind == "read":
                b, o = split(run.eng, ev.args[0])
                if b is None or b[0] == "obj":
                    continue
                n += 1
                ln = A(("leaf", "strlen", b, ev.x.get("ver", 0), 64))
                v = in_string(ev.facts, ln, o)
                if v is not True and b == src and node.uid in hyps:
                    v = in_string(strengthen(ev.facts, hyps[node.uid], b, ev.x.get("ver", 0)), ln, o)
                rep.judge(rule, ev.loc(), v, "%s reads offset %s of %s" % (name, show(o)[:120], show(A(b))[:60]))
        rep.note(reads_judged=n)
        try:
            ends = None
            if m is not None:
                ends = [p for p in m.paths if p.to is None] if m.loops else None
            if ends is None:
                for s, rv in run.results:
                    if rv.t:
                        b, o = s.split(rv)
                        rep.judge(term, name, True if b is not None and s.content(b, o) is not None else None,
                                  "the end of the returned text is not known")
            else:
                for p in ends:
                    v = bool(m.appended(p)[1])
                    if not v and p.lp is not None and None in m.cur[id(p.lp)][:2]:
                        v = None
                    rep.judge(term, p.loc(), v, "%s returns without a terminating null" % name)
        except Unsure as e:
            rep.unsure(term, name, str(e))
        except transduce.Mismatch as e:
            rep.unsure(term, name, str(e))


# ---------------------------------------------------------------- inline lines

READERS = ("fgets", "fread", "read", "getline", "getdelim", "fgetc", "getc")


@runs.memo
def watched_lines():
    """The inline reader on any input, every path kept apart; every access is an event."""
    p = runs.prog()
    models = {}
    if runs.opaque_ok(p, ("sequence_run_filters",), runs.DENY):
        models["!sequence_run_filters"] = runs.m_filters
    e = Engine(p, models=models, budget=3000000, record={"access"})
    e.merge_limit = 1 << 30
    e.enum_limit = 300
    f = runs.inline_fn(p)
    r = e.run_root(f, nonnull=tuple(n for n, _ in f.args if n == "options"))
    return runs.Run(e, r, f.name)


def c18(rep):
    rule = rep.rule("inside the line buffer", "Every byte stored into or read from the buffer input lines are read into, "
                    "and every block the library writes there, lies inside it.")
    run = watched_lines()
    rep.note(function=run.root, path_nodes=len(run.nodes))
    bufs = set()
    for _, ev in run.events("write"):
        if ev.name in READERS or ev.name.startswith("__") and "get" in ev.name:
            b, o = split(run.eng, ev.args[0])
            if b is not None:
                bufs.add(b)
    if not bufs:
        rep.unsure(rule, run.root, "no buffer that input is read into was found")
        rep.need.clear()
        return
    n = 0
    for _, ev in run.events("load", "store8", "store", "write", "read"):
        b, o = split(run.eng, ev.args[0])
        if b not in bufs:
            continue
        size = objsize(run.eng, b)
        if size is None:
            rep.unsure(rule, ev.loc(), "the size of the buffer is not known")
            continue
        n += 1
        ln = ev.args[1] if ev.kind == "write" else K(ev.x.get("size", 1))
        v = inside(ev.facts, size, o, ln)
        if v is None and unbounded(run, o):
            v = False
        rep.judge(rule, ev.loc(), v, "%s bytes at %s of a buffer of %s" % (
            show(ln)[:60], show(o)[:160], show(size)[:60]))
    rep.note(accesses_judged=n)
