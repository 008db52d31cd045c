"""C20-C24: what each filter turns a name into (src/clean_string.c, src/clean_utf_8.c)."""
import runs
import transduce
from interp import Engine
from terms import *  # noqa: F401,F403
from transduce import Compare, Machine, Missing, Unsure

GETTER = "table_get"


@runs.memo
def cleaner(name):
    """A cleaner on any name (and any table), every path kept apart; the table lookup is a black box."""
    p = runs.prog()
    f = p.need(name)
    e = Engine(p, opaque=[n for n in (GETTER, "table_max_output") if p.fn(n) is not None], budget=1000000)
    e.merge_limit = 1 << 30
    r = e.run_root(f, nonnull=())
    return f, runs.Run(e, r, name)


class Ref:
    getter = GETTER
    table, default_off = None, None

    def __init__(self, f):
        p = runs.prog()
        ptrs = [(n, t) for n, t in f.args if t.kind == "ptr"]
        if len(ptrs) > 1:
            self.table = ("leaf", "arg", ptrs[1][0], 64)
            self.default_off = p.offset("table_t", "default_translation")

    def choose(self, k, dom, known):
        return sorted(dom)


class Bytewise(Ref):
    """C20: one byte at a time through the table, from `low` on."""
    start = ""

    def __init__(self, f, low):
        super().__init__(f)
        self.low = low

    def step(self, m, get, env):
        c = get(0)
        if c == 0:
            return "end", []
        if c < self.low:
            return 1, [c], m
        r = env.lookup(c)
        if r is None:
            r = env.default()
        return 1, [c if r is None else r], m


class Lower(Ref):
    start = ""

    def step(self, m, get, env):
        c = get(0)
        if c == 0:
            return "end", []
        return 1, [c + 32 if 65 <= c <= 90 else c], m


HEX = frozenset(b"0123456789abcdefABCDEF")


class Uncgi(Ref):
    start = ""

    def step(self, m, get, env):
        c = get(0)
        if c == 0:
            return "end", []
        if c == 0x25 and get(1) in HEX and get(2) in HEX:
            return 3, [int(chr(get(1)) + chr(get(2)), 16)], m
        return 1, [0x20 if c == 0x2b else c], m


class Wipeup(Ref):
    """Modes: "lead" at the start, else the pending character of the run being collapsed ("" if none)."""
    start = "lead"

    def __init__(self, f, trailing):
        super().__init__(f)
        self.order = b".-_" if trailing else b"-_"

    def step(self, m, get, env):
        c = get(0)
        pend = b"" if m == "lead" else m.encode()
        if c == 0:
            return "end", list(pend)
        if m == "lead" and c in b"-_#":
            return 1, [], m
        if c in self.order:
            best = c if not pend or self.order.index(c) < self.order.index(pend) else pend[0]
            return 1, [], chr(best)
        return 1, list(pend) + [c], ""


REPS = frozenset((0, 0x41, 0x7f, 0xc0, 0xff))
CONT = frozenset(range(0x80, 0xc0))


class Utf8(Ref):
    start = ""

    def __init__(self, f):
        super().__init__(f)
        self.shaped = set()

    def choose(self, k, dom, known):
        if k == 0:
            return sorted(dom)
        # continuation bytes by representatives: the ends of the range and the boundary of U+10FFFF (the code point's
        # other values are covered by shape())
        cont = dom & CONT
        few = {0x80, 0xbf} if known[0] >= 0xf8 else {0x80, 0x8f, 0x90, 0xbf}
        r = cont & few
        if cont and not r:
            r = {min(cont), max(cont)}
        rest = dom - CONT
        return sorted(r | (rest & REPS) | ({min(rest), max(rest)} if rest else set()))

    def step(self, m, get, env):
        c = get(0)
        if c == 0:
            return "end", []
        if c < 0x80:
            n, v = 1, c
        else:
            n = next((w for w, mask, start in ((2, 0xe0, 0xc0), (3, 0xf0, 0xe0), (4, 0xf8, 0xf0), (5, 0xfc, 0xf8),
                                               (6, 0xfe, 0xfc)) if c & mask == start), None)
            if n is None:
                return 1, [0x5f], m
            v = c & (0x7f >> n)
        for k in range(1, n):
            d = get(k)
            if d & 0xc0 != 0x80:
                return k, [0x5f], m
            v = v << 6 | d & 0x3f
        r = env.lookup(v, lambda term, full: self.shape(term, full, n))
        if r is None and v == 0:
            return n, list(b"_hidden_null_"), m
        if r is None and v > 0x10ffff:
            return n, [0x5f], m
        if r is None:
            r = env.default()
        return n, [get(k) for k in range(n)] if r is None else [r], m

    def shape(self, term, full, n):
        """The key is the code point for every continuation byte, not only for the representatives: it is a sum of
        functions of single bytes, each of which is compared over its whole range."""
        if (term, n) in self.shaped:
            return
        self.shaped.add((term, n))
        for at, c in term.t:
            if len(leaves_atom(at)) > 1:
                raise Unsure("the code point is not a sum of its bytes' shares")
        lv = sorted((x for x in leaves(term) if x in full and x[1] == "mem8"), key=lambda x: x[3].c)
        base = ev(term, full)
        for at in lv:
            k = at[3].c - lv[0][3].c
            if k == 0 or k >= n:
                continue
            sh = 6 * (n - 1 - k)
            for v in range(0x80, 0xc0):
                got = ev(term, {**full, at: v}) - base
                if got != ((v & 0x3f) - (full[at] & 0x3f)) << sh:
                    raise transduce.Mismatch("byte %d contributes 0x%x instead of 0x%x for 0x%02x" % (
                        k, got, ((v & 0x3f) - (full[at] & 0x3f)) << sh, v))


def compare(rep, rule, name, make):
    """make(function, results) -> [(reference, results it describes)]"""
    f, run = cleaner(name)
    src = ("leaf", "arg", [n for n, t in f.args if t.kind == "ptr"][0], 64)
    rep.note(functions=[name], paths=len(run.nodes))
    for s, rv in run.results:
        if not rv.t and rv.c == 0:
            if s.isnull(A(src)) is not True:
                rep.bad(rule, "%s (in %s)" % (f.key, name), "returns nothing for a name that exists")
            else:
                rep.ok(rule, name + ": nothing for nothing")
    for ref, results in make(f, run.results):
        if not results:
            continue
        try:
            m = Machine(results, src)
            if not m.loops:
                raise Unsure("no loop over the name was found")
            c = Compare(m, ref, rep)
            c.rule = rule
            c.run()
            rep.note(transducer_paths=len(m.paths), product_states=len(c.pairs), byte_combinations=c.combos)
        except Unsure as e:
            rep.unsure(rule, name, str(e))
        except transduce.Mismatch as e:
            rep.bad(rule, name, str(e))
        except Unknown as e:
            rep.unsure(rule, name, "not evaluated: %s" % (e,))


def c20(rep):
    r = rep.rule("safe", "Each byte of the name is replaced by the table's entry for it, else by the table's default, "
                 "else copied; the copy ends at the name's end.")
    compare(rep, r, "clean_safe", lambda f, rs: [(Bytewise(f, 0), rs)])
    r = rep.rule("iso8859-1", "The same for the bytes above 0x7F; the others are copied.")
    compare(rep, r, "clean_iso8859_1", lambda f, rs: [(Bytewise(f, 0x80), rs)])


def c21(rep):
    r = rep.rule("utf-8", "Well-formed sequences of 1 to 6 bytes become the table's entry for their code point, else "
                 "_hidden_null_ (zero), _ (above U+10FFFF), the default, or are copied; an invalid start byte and a "
                 "truncated sequence become one _ each.")
    compare(rep, r, "clean_utf_8", lambda f, rs: [(Utf8(f), rs)])


def c22(rep):
    r = rep.rule("uncgi", "%XX becomes the byte XX, + a space, everything else is copied.")
    compare(rep, r, "clean_uncgi", lambda f, rs: [(Uncgi(f), rs)])


def c23(rep):
    r = rep.rule("wipeup", "Leading -, _ and # are dropped; every run of - and _ (and . with remove_trailing) becomes "
                 "its first character in the order .-_; everything else is copied.")

    def make(f, rs):
        flag = [(n, t) for n, t in f.args if t.kind == "int"]
        if len(flag) != 1:
            raise Unsure("no remove_trailing argument")
        at = ("leaf", "arg", flag[0][0], flag[0][1].bits)
        out = {True: [], False: []}
        for s, rv in rs:
            d = s.facts.decide("ne", A(at), K(0), flag[0][1].bits)
            for k in (True, False):
                if d is None or d is k:
                    out[k].append((s, rv))
        return [(Wipeup(f, k), out[k]) for k in (True, False)]
    compare(rep, r, "clean_wipeup", make)


def c24(rep):
    r = rep.rule("lower", "A-Z become a-z, every other byte is copied.")
    before = set(rep.unsurel)
    compare(rep, r, "clean_lower", lambda f, rs: [(Lower(f), rs)])
    if set(rep.unsurel) - before:
        changes(rep, r, "clean_lower", lambda c: c + 32 if 65 <= c <= 90 else c)


def changes(rep, rule, name, wanted):
    """A form the comparison does not follow: whatever byte is computed from another is that byte or its image."""
    f, run = cleaner(name)
    states = [s for s, rv in run.results]
    for n in run.nodes:
        if n.event is not None and n.event.kind == "loop":
            states += [s for h, s in n.event.x["loop"].backs]
    for s in states:
        for b, lg in s.log.items():
            for w in lg:
                if w[1] != "b" or not isinstance(w[2], Lin) or not w[2].t:
                    continue
                lv = [a for a in leaves(w[2]) if a[0] == "leaf" and a[1] == "mem8"]
                if len(lv) != 1 or len(leaves(w[2])) != 1:
                    continue
                d = s.facts.domof(lv[0])
                for c in sorted(s.facts.admitted(lv[0], d if d is not None else transduce.BYTES)):
                    try:
                        v = ev(w[2], {lv[0]: c}) & 255
                    except Unknown:
                        break
                    if v not in (c, wanted(c)):
                        rep.bad(rule, name, "the byte 0x%02x is made 0x%02x" % (c, v))
                        break


# ---------------------------------------------------------------- max_length

@runs.memo
def plain(name):
    """A function interpreted in full, every path kept apart."""
    p = runs.prog()
    f = p.need(name)
    e = Engine(p, budget=1000000)
    e.merge_limit = 1 << 30
    return f, runs.Run(e, e.run_root(f), name)


def c25(rep):
    name = "clean_max_length"
    f, run = plain(name)
    short = rep.rule("within the limit", "A name of at most the limit (256 if none is set) is returned as it is.")
    cut = rep.rule("no extension", "A longer name is cut to exactly the limit only if it has no extension.")
    keep = rep.rule("extension kept", "A longer name with an extension keeps it and gets exactly the limit's length.")
    give = rep.rule("given up", "A longer name is returned as it is only if its extension does not fit, and is warned "
                    "about.")
    ptr = [n for n, t in f.args if t.kind == "ptr"]
    num = [(n, t.bits) for n, t in f.args if t.kind == "int"]
    if len(ptr) != 1 or len(num) != 1:
        rep.unsure(short, name, "other arguments than a name and a limit")
        rep.need.clear()
        return
    src, lim = ("leaf", "arg", ptr[0], 64), ("leaf", "arg", num[0][0], num[0][1])
    rep.note(functions=[name], result_paths=len(run.results))
    for s, rv in run.results:
        fx = s.facts
        where = name
        ev_ = [e for e in s.events() if e.inst is not None and e.kind in ("write", "alloc", "out", "read")]
        if ev_:
            where = ev_[-1].loc()
        if not rv.t:
            rep.judge(short, name + ": nothing for nothing", True if s.isnull(A(src)) is True else
                      False if s.isnull(A(src)) is False else None, "nothing is returned for a name")
            continue
        z = fx.decide("eq", A(lim), K(0), num[0][1])
        M = K(256) if z is True else A(lim) if z is False else None
        b, o = s.split(rv)
        parts = s.content(b, o) if b is not None else None
        if M is None and parts is not None:
            r = limit_path(rep, s, parts, src, A(lim), where, (short, cut, keep, give), dry=True)
            # judged under both readings of the limit
            for zero in (True, False):
                s2 = s.fork()
                if s2.assume_cmp("eq" if zero else "ne", A(lim), K(0), num[0][1]):
                    limit_path(rep, s2, parts, src, K(256) if zero else A(lim), where, (short, cut, keep, give))
            continue
        if parts is None:
            rep.unsure(short, where, "the returned text is not known")
            continue
        limit_path(rep, s, parts, src, M, where, (short, cut, keep, give))
    if rep.unsurel:
        rep.need.clear()


def limit_path(rep, s, parts, src, M, where, rules, dry=False):
    if dry:
        return
    short, cut, keep, give = rules
    fx = s.facts
    L = s.strlen_atom(src, 0)
    r = fx.decide("sle", L, M, 64)
    if r is None:
        # the path did not compare: judge both sides
        for side in (True, False):
            s2 = s.fork()
            if s2.addge(sub(M, L) if side else addc(sub(L, M), -1)):
                limit_path(rep, s2, parts, src, M, where, rules)
        return
    n = s.plen(parts)
    if r:
        ok, at = fx.eq0(sub(n, L)), K(0)
        for q in parts:
            if q[0] not in ("src", "sub") or q[1] != src or not fx.eq0(sub(q[2], at)):
                ok = False
                break
            at = add(at, s.plen((q,)))
        known = all(p[0] in ("src", "sub", "lit") for p in parts)
        rep.judge(short, where, True if ok else (False if known else None),
                  "a name within the limit becomes %s" % runs_parts(parts))
        return
    dots = sorted((at[3] for at, d in s.dom.items() if at[0] == "leaf" and at[1] == "mem8" and at[2] == src and
                   d == frozenset((46,))), key=repr)
    last = [addc(o, -1) for (b, o, v, ln, ch) in s.noc if b == src and ch == 46 and ln is None]
    nodot = any(fx.eq0(o) for (b, o, v, ln, ch) in s.noc if b == src and ch == 46 and ln is None)
    if len(parts) == 1 and parts[0][:2] == ("src", src) and fx.eq0(parts[0][2]):
        fits = [o for o in dots if not fx.ge0(sub(sub(L, o), M))]
        if nodot or not dots:
            v = False if nodot else None
        elif any(fx.ge0(sub(sub(L, o), M)) for o in dots):
            v = True
        else:
            s2 = s.fork()
            v = False if all(s2.addge(addc(sub(M, sub(L, o)), -1)) for o in fits) else None
        rep.judge(give, where, v, "a name longer than the limit is returned as it is although its extension fits")
        told = any(e.kind == "out" and e.x.get("stream") in ("stderr", ("obj", "@stderr")) or e.kind == "out" and
                   "stderr" in str(e.x.get("stream")) for e in s.events())
        if v is not False:
            rep.judge(give, where + ": warning", told, "a name longer than the limit is returned without a warning")
        return
    if not all(p[0] in ("src", "sub") and p[1] == src for p in parts):
        rep.unsure(keep, where, "the result is %s" % runs_parts(parts))
        return
    if not fx.eq0(sub(n, M)):
        rep.bad(keep, where, "the result has length %s, not the limit" % show(n)[:120])
        return
    if not fx.eq0(parts[0][2]):
        rep.bad(keep, where, "the result does not start with the start of the name: %s" % runs_parts(parts))
        return
    if len(parts) == 1:
        if nodot or any(fx.ge0(addc(sub(o, L), 1)) and (o in dots or any(fx.eq0(sub(o, d)) for d in dots))
                        for o in last):
            rep.ok(cut, where)
        elif any(fx.ge0(addc(sub(L, o), -2)) for o in dots):
            rep.bad(cut, where, "a name with an extension is cut like one without: %s" % runs_parts(parts))
        elif dots:
            s2 = s.fork()
            rep.judge(cut, where, False if s2.addge(addc(sub(L, dots[0]), -2)) else None,
                      "a name with an extension is cut like one without: %s" % runs_parts(parts))
        else:
            rep.judge(cut, where, False if not s.noc and not dots else None,
                      "the name is cut without looking for an extension: %s" % runs_parts(parts))
        return
    q = parts[-1]
    whole_tail = q[0] == "src" or fx.eq0(sub(add(q[2], q[3]), L))
    at_dot = any(fx.eq0(sub(q[2], d)) for d in dots)
    if len(parts) != 2 or not whole_tail:
        rep.judge(keep, where, False if len(parts) == 2 else None, "the end of the name is lost: %s" % runs_parts(parts))
        return
    near = not last or any(fx.ge0(sub(o, q[2])) and fx.ge0(addc(sub(q[2], o), 5)) for o in last)
    b = fx.domof(("leaf", "mem8", src, q[2], 0, 8))
    rep.judge(keep, where, True if at_dot and near else (False if b is not None and 46 not in b or not at_dot and last
                                                          else None),
              "what is kept does not start at the extension's period: %s" % runs_parts(parts))


def runs_parts(parts):
    from engine import show_parts
    return show_parts(parts)[:200]
