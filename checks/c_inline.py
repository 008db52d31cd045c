"""C38: inline mode (src/file.c parse_inline)."""
import libc
import runs
from c_files import iterations, loops, strip
from engine import norm
from interp import Engine
from libc import needs
from runs import Run, memo
from terms import *  # noqa: F401,F403

LINE = "line"


def m_line(eng, st, i, args, name):
    """fgets on a text without null bytes: nothing more; or one line with its newline, or the start or the unfinished
    end of one, in both cases told apart by whether it has no, one, two or more characters."""
    if not needs(eng, st, i, name, args, (0, 2)):
        return []
    b, o = st.split(args[0])
    st.event("write", name, (args[0], args[1]), None, i, parts=None, exact=True)
    out = []
    end = st.fork()
    end.event("call", name, args, K(0), i, handle=args[2], line=None)
    out.append((end, K(0)))
    if b is None:
        st.event("call", name, args, args[0], i, handle=args[2], line=None)
        return out + [(st, args[0])]
    for nl in (True, False):
        for n in (0, 1, 2, 3):
            if n == 0 and not nl:
                continue
            s = st.fork()
            if n < 3:
                bs = [("leaf", "mem8", ("leaf", LINE, i.loc() if hasattr(i, "loc") else name, eng.fresh_id(), 64), K(k), 0, 8)
                      for k in range(n)]
                ok = all(s.setdom(x, set(range(1, 256)) - {10}) is not False for x in bs)
                text = tuple(("byte", A(x)) for x in bs)
            else:
                x = ("leaf", LINE, "", eng.fresh_id(), 64)
                ok = s.addge(addc(s.strlen_atom(x, 0), -3)) is not False
                for k in range(3):
                    for z in (K(k), addc(s.strlen_atom(x, 0), -1 - k)):
                        ok = ok and s.setdom(single(s.src_byte(x, z, 0)), set(range(1, 256)) - {10}) is not False
                s.noc = s.noc | {(x, K(0), 0, None, 10)}
                s._facts = None
                text = (("src", x, K(0), 0),)
            if not ok:
                continue
            full = norm(text + ((("lit", b"\n"),) if nl else ()))
            ln = s.plen(full)
            if s.addge(addc(sub(args[1], ln), -1)) is False:
                continue
            s.write_str(b, o, full, True, ln)
            s.event("call", name, args, args[0], i, handle=args[2], line=(text, nl, args[0]))
            out.append((s, args[0]))
    return out


def m_byte(eng, st, i, args, name):
    """One more byte, or none."""
    if args and not needs(eng, st, i, name, args, (0,)):
        return []
    h = args[0] if args else None
    end = st.fork()
    end.event("call", name, args, K(-1), i, handle=h)
    rv = A(eng.leaf("ret", 32, name))
    out = [(end, K(-1))]
    if st.setdom(single(rv), set(range(1, 256))) is not False:
        st.event("call", name, args, rv, i, handle=h)
        out.append((st, rv))
    return out


def m_unget(eng, st, i, args, name):
    """Pushing a byte back works or does not."""
    if not needs(eng, st, i, name, args, (1,)):
        return []
    bad = st.fork()
    rv = A(eng.leaf("ret", 32, name, dom=range(0, 256)))
    st.event("call", name, args, rv, i, handle=args[1], ok=True)
    bad.event("call", name, args, K(-1), i, handle=args[1], ok=False)
    return [(st, rv), (bad, K(-1))]


GETS = ("fgets", "fgets_unlocked")
GETC = ("fgetc", "getc", "getchar", "getc_unlocked")
OTHER = ("getline", "getdelim", "fread", "read", "fscanf", "__isoc99_fscanf", "scanf", "gets")
FILTERS = "sequence_run_filters"


@memo
def turns_run():
    """The inline reader as main starts it: any input, written to standard output."""
    p = runs.prog()
    models = {n: m_line for n in GETS}
    models.update({n: m_byte for n in GETC})
    models["ungetc"] = m_unget
    if runs.opaque_ok(p, (FILTERS,), runs.DENY):
        models["!" + FILTERS] = runs.m_filters
    e = Engine(p, models=models, budget=6000000, max_states=60000)
    e.merge_limit = 1 << 30
    e.enum_limit = 300
    f = runs.inline_fn(p)
    args = []
    for n, t in f.args:
        at = e.arg_leaf(n, t)
        if "out" in n:
            args.append(K(0))
            continue
        args.append(A(at))
        if n == "options":
            e.ivs[at] = (1, 1 << 62)
    return Run(e, e.run_root(f, args=args), f.name)


def plain(s, parts):
    """A text as a tuple of characters and pieces that can be compared."""
    if parts is None:
        return None
    out = []
    for q in norm(parts):
        if q[0] == "sub":
            d = sub(add(q[2], q[3]), s.strlen_atom(q[1], q[4]))
            if s.facts.eq0(d):
                q = ("src", q[1], q[2], q[4])
        if q[0] == "lit":
            out += [("c", x) for x in q[1]]
        elif q[0] == "byte":
            v = s.facts.values(q[1])
            if v is not None and len(v) == 1:
                out.append(("c", min(v) & 255))
            else:
                out.append(("b", strip(single(q[1]))))
        elif q[0] == "unk":
            return None
        elif q[0] == "src" and s.facts.eq0(sub(s.strlen_atom(q[1], q[3]), q[2])):
            continue
        else:
            out.append(q)
    return tuple(out)


def bytes_of(s, at):
    """The values a byte may have on this path."""
    v = s.facts.values(A(at))
    return None if v is None else {x & 255 for x in v}


def tail(s, line, pulled):
    """The last bytes of a text, from the end: value sets (None if nothing is known of one)."""
    for at in reversed(pulled):
        yield bytes_of(s, at)
    for q in reversed(line):
        if q[0] == "byte":
            yield bytes_of(s, strip(single(q[1])))
        elif q[0] == "src":
            n = sub(s.strlen_atom(q[1], q[3]), q[2])
            for k in range(1, 7):
                yield s.facts.values(s.src_byte(q[1], add(q[2], addc(n, -k)), q[3]))
            return
        else:
            return


STARTS = {2: range(0xC2, 0xE0), 3: range(0xE0, 0xF0), 4: range(0xF0, 0xF5)}
CONT = set(range(0x80, 0xC0))


def unfinished(s, line, pulled):
    """(whether the text may end inside a character, and the bytes so far)"""
    k = 0
    for v in tail(s, line, pulled):
        k += 1
        if k > 3:
            return None
        for w, r in STARTS.items():
            if w > k and (v is None or set(r) & v):
                return w, k
        if v is not None and not v & CONT:
            return None
    return None


class Turn:
    """One turn of the loop over the lines."""

    def __init__(self, s, evs):
        self.s, self.evs = s, evs
        self.gets = [e for e in evs if e.kind == "call" and e.name in GETS]
        self.other = [e for e in evs if e.kind == "call" and e.name in OTHER]
        self.bytes = [e for e in evs if e.kind == "call" and e.name in GETC]
        self.back = [e for e in evs if e.kind == "call" and e.name == "ungetc"]
        self.eof = any(e.ret == K(-1) for e in self.bytes)

    def pulled(self):
        """The bytes read one at a time and kept; None if it cannot be told."""
        out, back = [], 0
        for e in self.evs:
            if e.kind != "call":
                continue
            if e.name in GETC and e.ret != K(-1):
                if back:
                    return None
                out.append(single(e.ret))
            elif e.name == "ungetc" and e.x.get("ok"):
                at = strip(single(e.args[0])) if e.args[0].t else None
                if not out:
                    return None
                if at != out[-1]:
                    v, c = bytes_of(self.s, out[-1]), e.args[0]
                    if c.t or v != {c.c & 255}:
                        return None
                out.pop()
                back += 1
                if back > 1:
                    return None
        return out


def dots(s, line, pulled):
    """Whether the text is . or .. (None: on some of the inputs of this path)."""
    n, bs = 0, []
    for q in line:
        if q[0] == "byte":
            bs.append(bytes_of(s, strip(single(q[1]))))
        else:
            return False                                   # three characters and more
    bs += [bytes_of(s, at) for at in pulled]
    if len(bs) not in (1, 2):
        return False
    if any(b is not None and 46 not in b for b in bs):
        return False
    return True if all(b == {46} for b in bs) else None


def c38(rep):
    one = rep.rule("filtered", "for every line read exactly its text without the newline is filtered, unless it is . or ..")
    wrote = rep.rule("written", "exactly the result is written, or the text itself if it is . or .., and a newline exactly if "
                     "the line had one")
    prot = rep.rule("dots", "a text is left unfiltered only if it is . or .., and . and .. always are")
    kept = rep.rule("nothing lost", "what is read is what is filtered: bytes read ahead are kept or given back, and nothing of "
                    "the next line is drawn in")
    last = rep.rule("to the end", "reading stops only when there is no more input")
    char = rep.rule("characters", "a piece of a long line does not end inside a character while the rest of it can be read")
    r = turns_run()
    name = r.root
    lps = [lp for lp in loops(r) if any(e.kind == "call" and e.name in GETS + GETC + OTHER for h, s, evs in iterations(lp) for e in evs)]
    rep.note(function=name, path_nodes=len(r.nodes), loops=len(lps), paths=sum(len(lp.backs) for lp in lps))
    outer = [lp for lp in lps if any(e.kind == "call" and e.name in GETS for h, s, evs in iterations(lp) for e in evs)]
    if not outer:
        rep.unsure(kept, name, "no loop that reads lines with fgets was found")
        rep.need.clear()
        return
    for lp in outer:
        for h, s, evs in iterations(lp):
            turn(rep, name, Turn(s, evs), one, wrote, prot, kept, char, last)
    for s, rv in r.results:
        evs = s.events()
        g = [e for e in evs if e.kind == "call" and e.name in GETS]
        inside = [e for e in g if e.x.get("line") is not None]
        if not g:
            if not any(e.kind == "loop" for e in evs):
                rep.judge(last, name + " open", any(e.kind == "open" and e.ret == K(0) for e in evs), "nothing is read")
            continue
        rep.judge(last, name, g[-1].ret == K(0) if g else None, "reading stops after a line was read")
    for s, code in r.eng.exits:
        g = [e for e in s.events() if e.kind == "call" and e.name in GETS]
        if g and g[-1].x.get("line") is not None:
            rep.judge(last, name + " exit", any(e.kind == "alloc-fail" for e in s.events()), "the program ends after a line was read")


def turn(rep, name, t, one, wrote, prot, kept, char, last):
    s = t.s
    where = name
    if t.other or len(t.gets) != 1 or t.gets[0].x.get("line") is None:
        if not t.gets and not t.other and not t.bytes:
            rep.bad(kept, where, "a turn of the loop reads nothing")
        else:
            rep.unsure(kept, where, "lines are read in a way that is not understood")
        return
    g = t.gets[0]
    where = g.loc()
    line, nl, buf = g.x["line"]
    if not g.args[1].t and g.args[1].c < 2:
        rep.bad(last, where, "nothing can be read into a buffer of %d" % g.args[1].c)
    hs = {e.x.get("handle") for e in t.gets + t.bytes + t.back}
    if len(hs) > 1:
        rep.bad(kept, where, "bytes are read from another stream")
    pulled = t.pulled()
    if pulled is None or any(e.kind == "loop" and any(x.kind == "call" and x.name in GETC + ("ungetc",) for _, _, y in
                                                     iterations(e.x["loop"]) for x in y) for e in t.evs):
        rep.unsure(kept, where, "what is read ahead could not be followed")
        return
    if nl and pulled:
        rep.bad(kept, where, "bytes of the next line are drawn into this one")
        return
    for at in pulled[:-1]:
        v = bytes_of(s, at)
        if v is None or 10 in v:
            rep.bad(kept, where, "reading ahead goes on after a newline")
            return
    if pulled:
        v = bytes_of(s, pulled[-1])
        if v == {10}:
            nl, pulled = True, pulled[:-1]
        elif v is None or 10 in v:
            # both are possible here: what is filtered is wrong if it is wrong either way
            a = plain(s, line + tuple(("byte", A(at)) for at in pulled))
            got = [plain(s, e.strs.get(1)) for e in t.evs if e.kind == "call" and e.name == FILTERS and e.args[1] != K(0)]
            rep.judge(kept, where, False if got and None not in got and a not in got else None,
                      "the text filtered lacks a byte that was read" if got and None not in got and a not in got else
                      "whether the last byte read ahead is a newline is not known")
            return
    T = plain(s, line + tuple(("byte", A(at)) for at in pulled))
    calls = [e for e in t.evs if e.kind == "call" and e.name == FILTERS and e.args[1] != K(0)]
    d = dots(s, line, pulled)
    want = T
    if len(calls) > 1:
        rep.bad(one, where, "the filters are run %d times" % len(calls))
        return
    if calls:
        c = calls[0]
        got = plain(s, c.strs.get(1))
        shown = "the text filtered is not the line: %s" % (c.strs.get(1),)
        rep.judge(kept if pulled or t.back else one, where, True if got == T else None if got is None else False, shown)
        if d is not False:
            rep.judge(prot, where, None if d is None and 0 else False, ". or .. is filtered")
        else:
            rep.ok(prot, where, "")
        n = s.isnull(c.ret)
        if n is not True:
            want = (("src", single(c.ret), K(0), 0),)
        seq = c.args[0]
    else:
        rep.judge(prot, where, d if d is not None else False, "a text other than . and .. is not filtered")
        if any(e.kind == "enter" for e in t.evs):
            pass
    out = ()
    for e in t.evs:
        if e.kind != "out" or e.x.get("stream") == "stderr" or "stderr" in str(e.x.get("handle")):
            continue
        if e.x.get("stream") != "stdout" and "stdout" not in str(e.x.get("handle")):
            rep.unsure(wrote, where, "text is written elsewhere")
            return
        q = plain(s, e.x["parts"])
        if q is None or out is None:
            out = None
        else:
            out += q
    want = want + ((("c", 10),) if nl else ())
    rep.judge(wrote, where, None if out is None else out == want, "written is %s instead of %s" % (out, want))
    if not nl and not t.eof and not t.back:
        u = unfinished(s, line, pulled)
        big = any(q[0] == "src" for q in line)
        rep.judge(char, where, not (u and big), u and "a character of %d bytes is cut after %d although no more was tried" % u)
    elif not nl:
        rep.ok(char, where, "")
