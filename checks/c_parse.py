"""C36: table files."""
import re

import runs
from bounds import inside, objsize, split
from c_files import iterations, loops
from c_tables import known_atoms, split_ptr, table_run
from terms import *  # noqa: F401,F403

SCANS = ("sscanf", "__isoc99_sscanf", "__isoc23_sscanf")
COMPARES = ("strcasecmp", "strncasecmp", "strcmp", "strncmp", "memcmp")


def fmt_of(e):
    f = e.x.get("fmt")
    if f is None:
        return None
    return re.sub(rb"%[0-9]+", b"%", f.strip())


class Turn:
    """One turn of the loop over the lines of a table file."""

    def __init__(self, r, lp, h, s, evs, var):
        self.r, self.lp, self.h, self.s, self.evs = r, lp, h, s, evs
        self.fx = s.facts
        self.line = None
        for e in evs:
            if e.kind == "call" and e.name in ("fgets", "getline"):
                self.line = split_ptr(r.eng, e.args[0])[0] if e.args else None
        self.scans = [e for e in evs if e.kind == "call" and e.name in SCANS]
        self.puts = [e for e in evs if e.kind == "call" and e.name == "table_put"]
        self.sets = [e for e in evs if e.kind == "store" and isinstance(e.name, tuple) and e.name[:2] == ("f", "table_t")]
        self.var = var
        self.state = self.next = None
        if var is not None:
            at = single(h.pv[var])
            d = self.fx.domof(at) if at is not None else None
            if d is None and at is not None:
                lo, hi = self.fx.bound(at)
                d = frozenset((lo,)) if lo == hi else None
            self.state = d
            n = s.phi_next[var]
            self.next = None if n == h.pv[var] else n.c if not n.t else "?"

    def byte(self, off):
        """What the byte of the line at an offset can be."""
        for at in known_atoms(self.fx) | set(self.fx.dom):
            if at[:3] == ("leaf", "mem8", self.line):
                o = at[3] if isinstance(at[3], Lin) else K(at[3])
                if o == off:
                    return self.fx.domof(at)
        return None

    def comment(self):
        d = self.byte(K(0))
        return None if d is None else True if d == {35} else False if 35 not in d else None

    def at_line(self, e):
        """The offset in the line a scan starts at, or None."""
        b, o = split_ptr(self.r.eng, e.args[0])
        return o if b == self.line else None

    def number(self):
        """The scan for the key: (event, key atom, offset behind it) or None."""
        for e in self.scans:
            f = fmt_of(e)
            if f is not None and self.at_line(e) == K(0) and re.match(rb"%[hlz]*[idxuo]", f):
                key = next((a for c, a in e.x.get("vals", ()) if c in "idxuo"), None)
                off = next((a for c, a in e.x.get("vals", ()) if c == "n"), None)
                return e, f, key, off
        return None

    def word(self):
        """The scan for the first word: (event, offset behind it) or None."""
        for e in self.scans:
            f = fmt_of(e)
            if f is not None and self.at_line(e) == K(0) and f.startswith(b"%s"):
                return e, next((a for c, a in e.x.get("vals", ()) if c == "n"), None)
        return None

    def compared(self, text):
        """Whether the word was found to be this one: True, False, None if it was not compared."""
        got = None
        for e in self.evs:
            if e.kind == "call" and e.name in COMPARES:
                for i in (0, 1):
                    c = e.strs.get(i)
                    if c and len(c) == 1 and c[0][0] == "lit" and c[0][1].lower() == text:
                        got = self.fx.decide("eq", e.ret, K(0), 32)
                        if got is not None:
                            return got
        return got

    def locale(self):
        """Whether the text behind the word was compared with the locale and found equal."""
        for e in self.evs:
            if e.kind == "call" and e.name in COMPARES:
                a, b = e.strs.get(0), e.strs.get(1)
                if not any(c and len(c) == 1 and c[0][0] == "lit" and c[0][1].lower() in (b"start", b"default", b"end") for c in (a, b)):
                    return self.fx.decide("eq", e.ret, K(0), 32)
        return None

    def text(self, v, use, off):
        """Whether v holds, where event `use` takes it, the text that stands at offset `off` of the line."""
        buf, o = split_ptr(self.r.eng, v)
        if buf is None or o != K(0):
            return None, "the text is not read into a buffer of its own"
        if off is None:
            return None, "it is not known where the text starts"
        d = self.byte(off)
        upto = self.evs[:self.evs.index(use)] if use in self.evs else self.evs
        last = None
        for e in upto:
            if e.kind == "call" and e.name in SCANS and any(split_ptr(self.r.eng, a)[0] == buf for a in e.args[2:]):
                last = e
        cut = None
        for e in upto:
            if e.kind in ("write", "store8") and split_ptr(self.r.eng, e.args[0])[0] == buf:
                cut = e
        if last is None or last is not None and self.at_line(last) == K(0):
            return (False if last is not None or cut is None or cut.kind == "store8" else None), \
                "the text is not read from behind the key"
        f, x = fmt_of(last), self.at_line(last)
        if x is None or f is None or d is None:
            return None, "what is read is not known"
        if d <= {34, 39} and len(d) == 1:
            want, at = b'%[^"]' if 34 in d else b"%[^']", addc(off, 1)
        elif not d & {34, 39, 0}:
            want, at = b"%s", off
        elif 0 in d:
            return False, "a text is taken although the line may end there"
        else:
            return (False if f == b"%s" or 1 < len(d - {34, 39}) else None), "a quoted text is not read as one"
        if x != at or f != want:
            return False, "the text is read from %s with %s" % (show(x)[:60], f.decode("latin-1"))
        if last.x.get("scanned") == 0:
            c = use.strs.get(2 if use.name == "table_put" else 0)
            return (True if c == () else False), "an empty text is not stored as one"
        if cut is not None and upto.index(cut) > upto.index(last):
            return None, "the text is changed after it was read"
        return True, ""


def state_var(lp):
    """The variable of the loop that tells inside from outside."""
    out = []
    for var in lp.init:
        if lp.init[var].t:
            continue
        vals = [s.phi_next[var] for h, s in lp.backs]
        if all(v == h.pv[var] or not v.t for (h, s), v in zip(lp.backs, vals)) and any(not v.t for v in vals):
            out.append(var)
    return out[0] if len(out) == 1 else None


def c36(rep):
    rows = rep.rule("row", "a line inside start and end with a key and a text is stored once, under that key, with that text")
    lost = rep.rule("every row", "a line stores nothing only if it is a comment, lies outside start and end, has no key that is a "
                    "number, or has no text")
    block = rep.rule("blocks", "only a start line (for all locales, or the one set) opens a block and only an end line closes it")
    dflt = rep.rule("default", "a default line outside the blocks, and no other, sets the default to the text it has, or to none")
    fail = rep.rule("failure", "a row that cannot be stored ends the read without a table; otherwise the table is returned at the "
                    "end of the file")
    size = rep.rule("capacity", "the table has a row for every three bytes of the file, or at least 500")
    bufs = rep.rule("buffers", "every access to the buffers of a line and of its text lies inside them")
    f, r = table_run("parse_table", ("table_init", "table_put", "table_free", "wrapped_strdup"), ("filename",))
    rep.note(functions=1, paths=len(r.results), event_nodes=len(r.nodes))
    seen = 0
    for lp in loops(r):
        var = state_var(lp)
        turns = [Turn(r, lp, h, s, evs, var) for h, s, evs in iterations(lp)]
        if not any(t.puts or t.scans for t in turns):
            continue
        seen += 1
        where = "parse_table:%s" % lp.key[1]
        if var is None or any(t.line is None for t in turns):
            rep.unsure(block, where, "no variable tells the lines inside a block from those outside")
            rep.need.clear()
            continue
        outside = lp.init[var].c
        rep.note(line_paths=len(turns))
        for t in turns:
            judge_turn(rep, t, outside, where)
    if not seen:
        rep.unsure(block, "parse_table", "no loop over the lines of the file was found")
        rep.need.clear()
    results(rep, r, fail, size)
    # ---- buffers
    held, n = set(), 0
    for _, e in r.events("write"):
        if e.name == "fgets" or e.name in SCANS:
            b, _ = split(r.eng, e.args[0])
            if b is not None:
                held.add(b)
    for _, e in r.events("load", "store8", "store", "write"):
        b, o = split(r.eng, e.args[0])
        if b not in held:
            continue
        z = objsize(r.eng, b)
        if z is None:
            rep.unsure(bufs, e.loc(), "the size of the buffer is not known")
            continue
        n += 1
        k = e.args[1] if e.kind == "write" else K(e.x.get("size", 1))
        v = inside(e.facts, z, o, k)
        if v is None and e.kind == "write" and e.name == "fgets" and not k.t:
            v = False
        if v is None and e.kind == "write" and e.x.get("scan") and not z.t:
            v = False if e.x.get("exact") else None
        rep.judge(bufs, e.loc(), v, "%s bytes at %s of a buffer of %s" % (show(k)[:80], show(o)[:80], show(z)[:40]))
    rep.note(buffer_accesses=n)


def judge_turn(rep, t, outside, where):
    fx = t.fx
    out = t.state is not None and t.state == {outside}
    ins = t.state is not None and outside not in t.state
    com = t.comment()
    num, word = t.number(), t.word()
    # ---- rows
    for e in t.puts:
        w = e.loc()
        rep.judge("row", w, len(t.puts) == 1, "a line is stored %d times" % len(t.puts))
        rep.judge("row", w, True if ins else False, "a line outside start and end is stored")
        rep.judge("row", w, True if com is False else False, "a comment may be stored")
        at = single(e.args[1])
        if num is None or num[2] is None or A(num[2]) != e.args[1]:
            rep.judge("row", w, False if at is not None and at[:2] == ("leaf", "scan") or not e.args[1].t else None,
                      "the key is not the number the line starts with: %s" % show(e.args[1])[:80])
            continue
        rep.judge("row", w, num[1].startswith(b"%i"), "the key is read with %s" % num[1].decode("latin-1"))
        rep.judge("row", w, fx.ge0(A(num[2])), "the key may be negative")
        tab = e.args[0]
        rep.judge("row", w, single(tab) is not None and "table_init" in single(tab), "the row is stored into %s" % show(tab)[:60])
        ok, why = t.text(e.args[2], e, A(num[3]) if num[3] is not None else None)
        rep.judge("row", w, ok, why)
        rep.judge("failure", w, fx.decide("ne", e.ret, K(-1), 32) is True or fx.ge0(e.ret) or False,
                  "the read goes on although the row may not have been stored")
    if not t.puts:
        why = None
        if com is True:
            why = "a comment"
        elif out:
            why = "outside"
        elif num is not None and (num[0].x.get("scanned") == 0 or num[2] is not None and fx.ge0(addc(scale(A(num[2]), -1), -1))):
            why = "no key"
        elif num is not None and num[3] is not None and t.byte(A(num[3])) == {0}:
            why = "no text"
        if why:
            rep.ok("every row", where + " " + why)
        elif ins and (num is not None or com is False and not t.scans):
            rep.bad("every row", where, "a line inside a block that has a key and a text is not stored (%s)" % situation(t))
        else:
            rep.unsure("every row", where, "it is not known why the line is not stored (%s)" % situation(t))
    # ---- blocks
    start, end, dfl = t.compared(b"start"), t.compared(b"end"), t.compared(b"default")
    off = A(word[1]) if word is not None and word[1] is not None else None
    rest = t.byte(off) if off is not None else None
    got = word is not None and word[0].x.get("scanned") == 1
    if t.next == "?":
        rep.unsure("blocks", where, "the state becomes something that is not constant")
    elif com is True:
        rep.judge("blocks", where + " comment", t.next is None or t.state == {t.next}, "a comment changes the state")
    elif out:
        opened = t.next is not None and t.next != outside
        if opened:
            ok = start is True and (rest == {0} or rest is not None and 0 not in rest and t.locale() is True)
            rep.judge("blocks", where + " opens", True if ok else False if start is not True or rest is not None else None,
                      "a block is opened by a line that is not a start line for this locale (%s)" % situation(t))
        else:
            bad = start is True and (rest == {0} or rest is not None and 0 not in rest and t.locale() is True)
            miss = got and start is None or start is True and rest is not None and 0 not in rest and t.locale() is None
            rep.judge("blocks", where + " stays outside", not bad and not miss,
                      "a start line opens no block" if bad else "a line outside is not compared with start, or its locale not with the one set (%s)"
                      % situation(t))
    elif ins:
        closed = t.next is not None and t.next == outside
        if closed:
            rep.judge("blocks", where + " closes", end is True and not t.puts, "a block is closed by a line that is no end line (%s)" % situation(t))
        else:
            miss = num is not None and num[0].x.get("scanned") == 0 and (word is None or got) and end is None
            rep.judge("blocks", where + " stays inside", end is not True and not miss and (t.next is None or t.state == {t.next}),
                      "an end line closes no block" if end is True else "a line that is no row is not compared with end (%s)" % situation(t))
    elif t.next is not None:
        rep.unsure("blocks", where, "the state changes without being known")
    # ---- default
    from walks import field  # noqa: F401
    o = runs.prog().offset("table_t", "default_translation")
    sets = [e for e in t.sets if e.name[2] == o]
    others = [e for e in t.sets if e.name[2] != o]
    for e in others:
        rep.unsure("default", e.loc(), "another field of the table is written")
    if sets:
        e = sets[-1]
        w = e.loc()
        rep.judge("default", w, True if dfl is True and out else False, "the default is set by another line (%s)" % situation(t))
        if dfl is True:
            if e.args[1] == K(0):
                rep.judge("default", w, True if rest == {0} else False if rest is not None else None,
                          "the default is removed although a text is given")
            else:
                dup = next((c for c in t.evs if c.kind == "call" and c.name in ("wrapped_strdup", "strdup") and c.ret == e.args[1]), None)
                if dup is None:
                    b, _ = split_ptr(t.r.eng, e.args[1])
                    rep.judge("default", w, False if any(split_ptr(t.r.eng, a)[0] == b for c in t.scans for a in c.args[2:]) else None,
                              "the default is not a copy of the text")
                else:
                    ok, why = t.text(dup.args[0], dup, off)
                    rep.judge("default", w, ok, why)
    elif dfl is True and out and start is not True:
        rep.bad("default", where, "a default line sets no default (%s)" % situation(t))
    elif out and got and start is False and dfl is None and com is False:
        rep.bad("default", where, "a line outside is not compared with default (%s)" % situation(t))


def situation(t):
    out = []
    for n, v in (("comment", t.comment()), ("start", t.compared(b"start")), ("default", t.compared(b"default")),
                 ("end", t.compared(b"end"))):
        if v is not None:
            out.append("%s: %s" % (n, "yes" if v else "no"))
    if t.number() is not None:
        out.append("number: %s" % ("no" if t.number()[0].x.get("scanned") == 0 else "yes"))
    return ", ".join(out) or "nothing known"


def results(rep, r, fail, size):
    p = runs.prog()
    for s, rv in r.results:
        fx, evs = s.facts, s.events()
        inits = [e for e in evs if e.kind == "call" and e.name == "table_init"]
        opened = [e for e in evs if e.kind == "open"]
        puts = [e for e in evs if e.kind == "call" and e.name == "table_put"]
        if rv == K(0):
            ok = not inits or fx.decide("eq", inits[-1].ret, K(0), 64) is True or not opened or \
                any(fx.decide("eq", e.ret, K(0), 64) is True for e in opened) or \
                not any(e.kind == "loop" for e in evs)
            bad = any(fx.decide("eq", e.ret, K(-1), 32) is True or fx.ge0(addc(scale(e.ret, -1), -1)) for e in puts)
            rep.judge(fail, "parse_table returns nothing", True if ok or bad else False if not puts else None,
                      "no table is returned although the file was read")
        else:
            last = puts[-1] if puts else None
            rep.judge(fail, "parse_table returns a table", any(e.ret == rv for e in inits), "%s is returned" % show(rv)[:60])
            if last is not None:
                rep.judge(fail, "parse_table returns a table", fx.decide("eq", last.ret, K(-1), 32) is not True,
                          "a table is returned although a row could not be stored")
            ends = [e for e in evs if e.kind == "loop-exit"]
            done = any(e.kind == "call" and e.name == "fgets" and fx.decide("eq", e.ret, K(0), 64) is True for e in evs)
            left = [e for e in evs if e.kind == "call" and e.name == "fgets"][-1:]
            early = any(fx.decide("ne", e.ret, K(0), 64) is True for e in left)
            rep.judge(fail, "parse_table at the end", True if done else False if early or not ends else None,
                      "the table is returned before the file ends")
        for e in inits:
            v, why = enough(e, p)
            rep.judge(size, e.loc(), v, why)


def enough(e, p):
    """Whether the number of rows asked for covers the file."""
    fx, n = e.facts, e.args[0]
    ratios = {}
    sizes = set()
    for at in known_atoms(fx) | atoms_of(n):
        if at[0] == "op" and at[1] in ("sdiv", "udiv"):
            d = at[-1]
            c = d if isinstance(d, int) else d.c if isinstance(d, Lin) and not d.t else None
            if c and any("st_size" in map(str, x) for x in atoms_of(A(at))):
                ratios[at] = c
        if at[:2] == ("leaf", "stat") and "st_size" in at:
            sizes.add(at)
    for at, c in n.t:
        a = at
        while a[0] == "op" and a[1] in ("trunc", "sext", "zext"):
            b = single(a[4]) if isinstance(a[4], Lin) else None
            if b is None:
                break
            a = b
        if a in ratios and c == 1 and n.c >= 0:
            return ratios[a] <= 3, "the table has one row for every %d bytes" % ratios[a]
        if a in sizes and c >= 1:
            return True, ""
    if n.t:
        return None, "the table has %s rows" % show(n)[:80]
    for at, c in ratios.items():
        if c <= 3 and (fx.ge0(sub(K(n.c), A(at))) or fx.decide("sle", A(at), K(n.c), 64) is True or
                       fx.decide("sle", A(at), K(n.c), 32) is True):
            return True, ""
    for at in sizes:
        if fx.ge0(sub(K(3 * n.c + 3), A(at))):
            return True, ""
    return False, "the table has %d rows whatever the size of the file" % n.c
