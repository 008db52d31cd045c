"""C35: what -L lists (src/config_file_dump.c)."""
import runs
from c_config import arg, fx_fields, kind_values, null, pointer_cases
from c_files import At, iterations, loops
from c_options import option, seq_value
from c_tables import table_run
from terms import *  # noqa: F401,F403
from walks import field, is_field, walks

KINDS = {"UNCGI": "uncgi", "SAFE": "safe", "WIPEUP": "wipeup", "ISO8859_1": "iso88591", "UTF_8": "utf8",
         "MAX_LENGTH": "maxlength", "LOWER": "lower"}


def outs(evs):
    return [e for e in evs if e.kind == "out"]


def plain(es):
    """The fixed text printed, letters and digits only; None if text the analysis cannot see is among it."""
    t = b""
    for e in es:
        for q in e.x.get("parts") or ():
            t += q[1] if q[0] == "lit" else bytes([q[1]]) if q[0] == "byte" and isinstance(q[1], int) else b"\x00"
    return t


def squeeze(t):
    return "".join(c for c in t.decode("latin1").lower() if c.isalnum() or c == "\x00")


def blind(p, es):
    """Whether the text printed includes some whose origin is neither fixed nor a field of a structure."""
    for e in es:
        if e.x.get("parts") is None:
            return True
        for q in e.x["parts"]:
            if q[0] == "src" and field(q[1]) is None and not (q[1][0] == "leaf" and q[1][1] == "ret"):
                return True
            if q[0] not in ("lit", "src", "fmt", "byte", "sub"):
                return True
    return False


def prints_field(p, es, base, name):
    """Whether the text or number in field `name` of the structure at base is printed whole."""
    for e in es:
        for q in e.x.get("parts") or ():
            at = q[1] if q[0] == "src" and q[2] == K(0) else single(q[2]) if q[0] == "fmt" and isinstance(q[2], Lin) and \
                q[2].t else None
            f = field(at) if at is not None else None
            if f is not None and f[0] == base and p.field(f[1], f[2]) == name:
                return True
    return False


def c35(rep):
    p = runs.prog()
    every = rep.rule("sequences", "the list of sequences is walked from the first to the end, one by one, and the name of "
                     "each is printed")
    mark = rep.rule("marked", "the mark is printed with a sequence exactly if it is the one selected")
    filt = rep.rule("filters", "with -v the filters of each sequence are walked from the first to the end, one by one, and "
                    "the kind of each is printed")
    sett = rep.rule("settings", "with a filter its remove_trailing, length and table (builtin or file) are printed if it "
                    "has them")
    ign = rep.rule("ignored", "every ignored name is printed")
    call = rep.rule("called", "with -L the program lists the configuration it loaded, after the sequence was selected")
    f, r = table_run("dump_config_file", ("filelist_get", "filelist_count"), ("config_file", "main_options"))
    rep.note(function=f.name, paths=len(r.results), event_nodes=len(r.nodes))
    cfg, opts = arg(f, 0), arg(f, 1)
    stdout = [e for n, e in r.events("out")]
    for e in stdout:
        if e.x.get("stream") == "stderr":
            rep.bad(every, e.loc(), "the listing goes to standard error")
    outer, inner, names = {}, {}, {}
    for lp in loops(r):
        for w in walks(p, lp):
            if field(single(w.init)) is None and w.init.t:
                continue
            if is_field(p, w.init, cfg, "sequences") is True:
                outer[id(lp)] = w
            elif w.init.t and p.field(*field(single(w.init))[1:]) == "filters":
                inner[id(lp)] = w
            elif w.init.t and p.field(*field(single(w.init))[1:]) == "next":
                g = field(single(w.init))[0]
                if is_field(p, A(g), cfg, "sequences") is True:
                    rep.bad(every, "%s:%s" % (r.root, lp.key[1]), "the listing starts at the second sequence")
                elif field(g) is not None and p.field(*field(g)[1:]) == "filters":
                    rep.bad(filt, "%s:%s" % (r.root, lp.key[1]), "the listing starts at the second filter")
        if any(e.kind == "call" and e.name == "filelist_get" for h, s, evs in iterations(lp) for e in evs):
            names[id(lp)] = lp

    def ended(fx, w):
        return any(null(fx, h.pv[w.var]) is True for h in w.lp.heads)

    verb = lambda at: option(p, at, "verbose")
    seen = set()
    for w in outer.values():
        where = "%s:%s" % (r.root, w.lp.key[1])
        if w.steps is not True:
            rep.judge(every, where, w.steps, "the walk does not go from one sequence to the next")
        for h, s, evs in iterations(w.lp):
            fx, cur = s.facts, w.cursor(h)
            es = outs(evs)
            here = prints_field(p, es, cur, "name")
            rep.judge(every, where, True if here else None if blind(p, es) else False,
                      "a sequence is taken up and its name is not printed")
            sel = None
            for at in fx_fields(fx, opts, p, "sequence_to_use"):
                sel = fx.decide("eq", A(at), A(cur), 64)
            star = b"*" in plain(es)
            if sel is None:
                rep.judge(mark, where, None if blind(p, es) else False, "%s without a look at whether it is the one selected" %
                          ("marked" if star else "not marked"))
            else:
                rep.judge(mark, where, True if star == sel else None if blind(p, es) else False,
                          "%s although it is %sthe one selected" % ("marked" if star else "not marked", "" if sel else "not "))
            # the filters
            v = verb(At(s))
            k = [e for e in evs if e.kind == "loop-exit" and id(e.x["loop"]) in inner]
            fl = [A(at) for at in fx_fields(fx, cur, p, "filters")]
            if k:
                for e in k:
                    w2 = inner[id(e.x["loop"])]
                    seen.add(id(e.x["loop"]))
                    own = is_field(p, w2.init, cur, "filters")
                    end = ended(fx, w2)
                    rep.judge(filt, where + " walk", True if own and end else False if not own or
                              any(null(fx, g.pv[w2.var]) is False for g in w2.lp.heads) else None,
                              "the filters of %s are not listed to the end" % ("the sequence" if own else "another sequence"))
            elif v is True:
                rep.judge(filt, where + " walk", True if any(null(fx, x) is True for x in fl) else None if any(
                    x.kind == "loop" for x in evs) else False, "with -v the filters of a sequence are not listed")
            elif v is not False:
                rep.judge(filt, where + " walk", False if v is None else None, "whether -v was given is not looked at: %s" % (v,))
    for w in inner.values():
        where = "%s:%s" % (r.root, w.lp.key[1])
        if w.steps is not True:
            rep.judge(filt, where, w.steps, "the walk does not go from one filter to the next")
        for h, s, evs in iterations(w.lp):
            filter_shown(rep, p, filt, sett, where, w.cursor(h), s.facts, evs)
    if outer and len(p.kinds) != len(KINDS):
        rep.unsure(filt, "detox_struct.h", "the filter kinds are not defined as FILTER_*")
    # the ignored names
    for lp in names.values():
        where = "%s:%s" % (r.root, lp.key[1])
        for h, s, evs in iterations(lp):
            got = [e for e in evs if e.kind == "call" and e.name == "filelist_get"] 
            fx = s.facts
            held = [e.ret for e in got] + [v for v in list(h.pv.values()) if s.phi_next]
            es = outs(evs)
            for e in got:
                if null(fx, e.ret) is True:
                    continue
                later = any(v == e.ret for v in s.phi_next.values())
                pr = any(q[0] == "src" and A(q[1]) == e.ret and q[2] == K(0) for x in es for q in x.x.get("parts") or ())
                prev = later and any(q[0] == "src" and q[2] == K(0) and any(
                    A(q[1]) == h.pv[x] and s.phi_next[x] == e.ret for x in lp.init) for y in es for q in y.x.get("parts") or ())
                rep.judge(ign, where, True if pr or prev else None if blind(p, es) else False, "a name is not printed")
    for s, rv in r.results:
        fx = s.facts
        evs = s.events()
        where = "%s returns" % r.root
        ex = [e.x["loop"] for e in evs if e.kind == "loop-exit"]
        full = [outer[id(lp)] for lp in ex if id(lp) in outer]
        first = [A(at) for at in fx_fields(fx, cfg, p, "sequences")]
        if any(ended(fx, w) for w in full) or any(null(fx, x) is True for x in first):
            rep.ok(every, where, "the walk ends behind the last sequence")
        elif full:
            rep.judge(every, where, False if any(null(fx, h.pv[w.var]) is False for w in full for h in w.lp.heads) else None,
                      "the walk over the sequences may stop before the last")
        else:
            rep.judge(every, where, None if ex else False, "the sequences are not listed")
        few = any(e.kind == "call" and e.name == "filelist_count" and fx.decide("sle", e.ret, K(0), 32) is True for e in evs)
        got = [e for e in evs if e.kind == "call" and e.name == "filelist_get"]
        done = [lp for lp in ex if id(lp) in names]
        if few:
            rep.ok(ign, where, "there is nothing to ignore")
        elif got and null(fx, got[-1].ret) is True and (done or len(got) == 1):
            rep.ok(ign, where, "all names were taken")
        elif done:
            last = {h.pv[x] for lp in done for h in lp.heads for x in lp.init}
            rep.judge(ign, where, True if any(null(fx, v) is True for v in last) else
                      False if got and null(fx, got[-1].ret) is False else None, "the listing may stop before the last name")
        else:
            rep.judge(ign, where, None if got or ex and not outer else False, "the ignored names are not listed")
        inits = {lp.init[x] for lp in done for x in lp.init}
        for e in got[:-1]:
            if null(fx, e.ret) is not True and e.ret not in inits and not any(
                    q[0] == "src" and A(q[1]) == e.ret for x in outs(evs) for q in x.x.get("parts") or ()):
                rep.judge(ign, e.loc(), None if blind(p, outs(evs)) else False, "a name is taken and not printed")
        for e in got:
            rep.judge(ign, e.loc(), is_field(p, e.args[0], cfg, "files_to_ignore"), "names are taken from %s" % show(e.args[0]))
    for w in outer.values():
        pass
    if not outer:
        rep.unsure(every, r.root, "no loop over the sequences of the configuration was found")
    if not inner:
        rep.unsure(filt, r.root, "no loop over the filters of a sequence was found")
    if rep.unsurel:
        for x in (every, mark, filt, sett, ign):
            rep.need.discard(x)
    listing(rep, p, call)


def filter_shown(rep, p, filt, sett, where, cur, fx, evs):
    es = outs(evs)
    ks = kind_values(p, fx, cur)
    t = squeeze(plain(es))
    dim = blind(p, es)
    if ks is None:
        rep.judge(filt, where + " kind", None if dim else False, "the kind of a filter is not looked at")
        return
    if not ks:
        rep.ok(filt, where + " kind", "no known kind")
        return
    said = {k for k in KINDS if KINDS[k] in t}
    if len(ks) > 1:
        rep.judge(filt, where + " kind", None if dim else False, "the same is printed for filters of kind %s" % " ".join(
            sorted(ks)))
        return
    kind = next(iter(ks))
    rep.judge(filt, where + " kind", True if said == {kind} else None if dim else False,
              "\"%s\" is printed for a filter of kind %s" % (" ".join(sorted(said)) or "nothing", kind))
    if kind == "WIPEUP":
        d = [fx.decide("ne", A(at), K(0), 32) for at in fx_fields(fx, cur, p, "remove_trailing")]
        d = True if True in d else False if False in d else None
        yes, no = "yes" in t, "trailingno" in t or t.endswith("no")
        if prints_field(p, es, cur, "remove_trailing"):
            rep.ok(sett, where + " remove_trailing", "printed as a number")
        elif "trailing" not in t:
            rep.judge(sett, where + " remove_trailing", None if dim else False, "remove_trailing is not printed")
        elif d is None:
            rep.judge(sett, where + " remove_trailing", None if dim else False, "the same is printed whether remove_trailing "
                      "is set or not")
        else:
            rep.judge(sett, where + " remove_trailing", None if dim else yes == d and no != d, "%s is printed for remove_trailing "
                      "being %s" % ("yes" if yes else "no", "on" if d else "off"))
    if kind == "MAX_LENGTH":
        rep.judge(sett, where + " length", True if prints_field(p, es, cur, "max_length") else None if dim else False,
                  "the length is not printed")
    b, fn = pointer_cases(fx, cur, p, "builtin"), pointer_cases(fx, cur, p, "filename")
    pb, pf = prints_field(p, es, cur, "builtin"), prints_field(p, es, cur, "filename")
    if pb or pf:
        rep.judge(sett, where + " table", "null" not in (b if pb else fn), "the name of a table is printed although there may "
                  "be none")
    # a filter has a builtin or a file name, never both
    if b == {"set"} and not pb or fn == {"set"} and b == {"null"} and not pf:
        rep.judge(sett, where + " table", None if dim else False, "the table of a filter is not printed")
    elif not pb and not pf and not (b == {"null"} and fn == {"null"}) and kind in ("SAFE", "ISO8859_1", "UTF_8"):
        rep.judge(sett, where + " table", None if dim else False, "the table of a filter may be left out")
    else:
        rep.ok(sett, where + " table", "builtin %s file %s" % (sorted(b), sorted(fn)))


def listing(rep, p, call):
    a = runs.args_run()
    rep.note(event_nodes=len(a.nodes))
    if p.fn("parse_options_getopt") is None or p.fn("config_file_load") is None:
        rep.unsure(call, "main", "parse_options_getopt or config_file_load is gone")
        return
    n0 = 0
    for s, what in [(s, "exits") for s, c in a.eng.exits] + [(s, "returns") for s, rv in a.results]:
        evs = s.events()
        l = option(p, At(s), "list_sequences")
        ds = [e for e in evs if e.kind == "call" and e.name == "dump_config_file"]
        if l is True:
            n0 += 1
            rep.judge(call, "main %s" % what, len(ds) == 1, "with -L the configuration is listed %d times" % len(ds))
        elif ds:
            rep.bad(call, "main %s" % what, "the configuration is listed without -L")
        for d in ds:
            k = evs.index(d)
            hist = evs[:k]
            cfg = {x.ret for x in hist if x.kind == "call" and x.name == "config_file_load"}
            opt = {x.ret for x in hist if x.kind == "call" and x.name == "parse_options_getopt"}
            ch = {x.ret for x in hist if x.kind == "call" and x.name == "sequence_choose_default"}
            rep.judge(call, d.loc(), d.args[0] in cfg and d.args[1] in opt, "%s is listed" % show(d.args[0]))
            v = seq_value(p, a, hist)
            rep.judge(call, d.loc() + " selected", v is not None and v in ch or None if ch else None,
                      "the sequence selected is not known when the configuration is listed")
            if not ch and p.fn("sequence_choose_default") is not None and any(
                    x.kind == "call" and x.name == "sequence_choose_default" for _, x in a.events("call")):
                rep.bad(call, d.loc() + " selected", "the configuration is listed before a sequence is selected")
    if not n0:
        rep.unsure(call, "main", "no path was found on which -L is known to be given")
