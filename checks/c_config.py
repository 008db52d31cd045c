"""C26, C27, C30, C31: the sequence that is chosen, the tables it gets, how it is run, where configuration comes from."""
import libc
import runs
from c_files import At, iterations, loops, same
from engine import show_parts
from interp import Engine
from runs import Run, memo
from terms import *  # noqa: F401,F403
from walks import field, is_field, walks


def site(e):
    return e.loc()


def arg(f, k):
    return ("leaf", "arg", f.args[k][0], 64)


def src_of(at):
    return (("src", at, K(0), 0),)


def is_text(parts, at):
    """The content is exactly the string that starts at atom `at`."""
    return parts is not None and len(parts) == 1 and parts[0][0] == "src" and parts[0][1] == at and parts[0][2] == K(0)


def null(f, at):
    """Whether a pointer is null at some facts: True, False, None."""
    v = at if isinstance(at, Lin) else A(at)
    return f.decide("eq", v, K(0), 64)


# ---------------------------------------------------------------- C30

COMPARES = ("strcmp", "strcoll")
NEARLY = ("strncmp", "strcasecmp", "strncasecmp", "strstr", "memcmp", "bcmp", "fnmatch")


def text_field(p, parts, base, name):
    """The content is the whole text of field `name` of the structure at base."""
    if parts is None or len(parts) != 1 or parts[0][0] != "src" or parts[0][2] != K(0):
        return False
    f = field(parts[0][1])
    return f is not None and f[0] == base and p.field(f[1], f[2]) == name


def compared(p, evs, facts, cur, wanted):
    """Of the comparisons of the cursor's name with the wanted text: the outcomes, True (equal), False or None."""
    out = []
    for e in evs:
        if e.kind == "call" and e.name in COMPARES:
            a, b = e.strs.get(0), e.strs.get(1)
            if wanted(b) and text_field(p, a, cur, "name") or wanted(a) and text_field(p, b, cur, "name"):
                out.append(facts.decide("eq", e.ret, K(0), 32))
    return out


@memo
def choose_run():
    p = runs.prog()
    f = p.need("sequence_choose_default")
    e = Engine(p, budget=500000)
    e.merge_limit = 1 << 30
    return Run(e, e.run_root(f), f.name)


def c30(rep):
    p = runs.prog()
    pick = rep.rule("chosen", "what is chosen is a sequence whose name equals the one asked for (\"default\" if none was "
                    "asked for), the first one if none was asked for and none is so named, or nothing")
    scan = rep.rule("searched", "the search takes up every sequence from the first on, and leaves one behind only when its "
                    "name differs from the one asked for")
    used = rep.rule("used", "the sequence that is run is the one chosen from the configuration for the name in the options")
    f = p.need("sequence_choose_default")
    r = choose_run()
    rep.note(function=f.name, paths=len(r.results), event_nodes=len(r.nodes))
    seqs, name = arg(f, 0), arg(f, 1)
    given = lambda parts: is_text(parts, name)
    deflt = lambda parts: parts == (("lit", b"default"),)

    def wanted(facts):
        n = null(facts, name)
        return deflt if n is True else given if n is False else None

    full = {}
    for lp in loops(r):
        ws = [w for w in walks(p, lp)]
        for w in ws:
            if w.init != A(seqs):
                v = is_field(p, w.init, seqs, "next")
                if v is True:
                    rep.bad(scan, "%s:%s" % (r.root, lp.key[1]), "the search starts at the second sequence")
                continue
            ok = w.steps
            if ok is not True:
                rep.judge(scan, "%s:%s" % (r.root, lp.key[1]), ok, "the search does not go from one sequence to the next")
            for h, s, evs in iterations(lp):
                wt = wanted(s.facts)
                where = "%s:%s" % (r.root, lp.key[1])
                if wt is None:
                    got = compared(p, evs, s.facts, w.cursor(h), lambda c: given(c) or deflt(c))
                    rep.unsure(scan, where, "whether a name was asked for is not known")
                    ok = None
                    continue
                got = compared(p, evs, s.facts, w.cursor(h), wt)
                if False in got:
                    rep.ok(scan, where, "passed over: its name differs")
                elif got and None in got:
                    rep.unsure(scan, where, "the outcome of the comparison is not known")
                    ok = None
                elif True in got and any(s.phi_next[x] == h.pv[w.var] for x in lp.init if x != w.var):
                    ok = None
                    rep.unsure(scan, where, "the match is remembered and the search goes on")
                else:
                    ok = False
                    rep.bad(scan, where, "a sequence is passed over without its name being compared with the one asked for")
            full[id(lp)] = (w, ok)
    for s, rv in r.results:
        fx = s.facts
        if rv != A(seqs) and null(fx, rv) is True:
            rv = K(0)
        where = "%s returns %s" % (r.root, "nothing" if rv == K(0) else "the first" if rv == A(seqs) else "a sequence")
        evs = s.events()
        wt = wanted(fx)
        # the walks this path completed
        done = None
        for e in evs:
            if e.kind == "loop-exit" and id(e.x["loop"]) in full:
                w, ok = full[id(e.x["loop"])]
                cur = [h for h in e.x["loop"].heads]
                if any(null(fx, h.pv[w.var]) is True for h in cur):
                    done = ok
        none = null(fx, seqs)
        if rv == K(0):
            if none is True:
                rep.ok(pick, where, "there are no sequences")
            elif wt is given:
                rep.judge(pick, where, True if done else None if done is None and full else False,
                          "nothing is chosen although not every name was compared")
            elif wt is deflt:
                rep.judge(pick, where, False if none is False else None, "nothing is chosen although no name was asked for "
                          "and there is a sequence")
            else:
                rep.unsure(pick, where, "whether a name was asked for is not known on the path")
        elif rv == A(seqs):
            cmpd = compared(p, evs, fx, seqs, wt) if wt else []
            if True in cmpd:
                rep.ok(pick, where, "its name is the one asked for")
            elif wt is deflt:
                rep.judge(pick, where, True if done else None if done is None and full else False,
                          "the first is chosen before all were compared with \"default\"")
            else:
                rep.bad(pick, where, "the first sequence may stand in for one that was asked for by name")
        else:
            at = single(rv)
            if at is None:
                rep.unsure(pick, where, show(rv))
                continue
            got = compared(p, evs, fx, at, wt) if wt else []
            if wt is None:
                got = compared(p, evs, fx, at, lambda c: given(c) or deflt(c))
                rep.unsure(pick, where, "whether a name was asked for is not known on the path")
            elif True in got:
                rep.ok(pick, where, "its name equals the one asked for")
            elif got or any(e.kind == "call" and e.name in ("memcmp", "bcmp") for e in evs):
                rep.judge(pick, where, None if None in got or not got else False, "its name differs from the one asked for")
            else:
                known = any(h.pv.get(w.var) == rv for e in evs if e.kind == "loop-exit" and id(e.x["loop"]) in full
                            for w, _ in (full[id(e.x["loop"])],) for h in e.x["loop"].heads)
                rep.judge(pick, where, False if known else None, "its name was not compared with the one asked for")
    # main
    a = runs.args_run()
    rep.note(event_nodes=len(a.nodes))
    so = ("f", "options_t", p.offset("options_t", "sequence_to_use"))
    for n, e in a.events("store"):
        if e.name != so:
            continue
        v = single(e.args[1])
        hist = [m.event for m in a.before(n) if m.event is not None]
        ch = [x for x in hist if x.kind == "call" and x.name == "sequence_choose_default"]
        if v is None or not ch:
            rep.judge(used, site(e), False if v is None else None, "sequence_to_use := %s" % show(e.args[1]))
            continue
        if all(x.ret != A(v) for x in ch):
            rep.bad(used, site(e), "sequence_to_use is not what was chosen: %s" % show(A(v)))
            continue
        x = [x for x in ch if x.ret == A(v)][-1]
        cfg = {single(y.ret) for y in hist if y.kind == "call" and y.name == "config_file_load"}
        opt = {single(y.ret) for y in hist if y.kind == "call" and y.name == "parse_options_getopt"}
        g = [is_field(p, x.args[0], c, "sequences") for c in cfg if c]
        o = [is_field(p, x.args[1], c, "sequence_name") for c in opt if c]
        ok = (True in g) if g else None
        ok2 = (True in o) if o else None
        rep.judge(used, site(x), False if ok is False or ok2 is False else True if ok and ok2 else None,
                  "chosen from %s for %s" % (show(x.args[0]), show(x.args[1])))
    for n, e in a.events("call"):
        if e.name == "sequence_run_filters" and e.args:
            hist = [m.event for m in a.before(n) if m.event is not None]
            ch = {x.ret for x in hist if x.kind == "call" and x.name == "sequence_choose_default"}
            if ch:
                v = e.args[0] in ch
                if not v:
                    f2 = field(single(e.args[0])) if e.args[0].t else None
                    if f2 is not None and p.field(f2[1], f2[2]) == "sequence_to_use":
                        v = None
                rep.judge(used, site(e), v, "%s is run" % show(e.args[0]))
    import c_options
    c_options.names_rule(rep)


# ---------------------------------------------------------------- C26

# kind -> (cleaner, field of the filter its second argument comes from)
CLEANERS = {
    "ISO8859_1": ("clean_iso8859_1", "table"),
    "LOWER": ("clean_lower", None),
    "MAX_LENGTH": ("clean_max_length", "max_length"),
    "SAFE": ("clean_safe", "table"),
    "UNCGI": ("clean_uncgi", None),
    "UTF_8": ("clean_utf_8", "table"),
    "WIPEUP": ("clean_wipeup", "remove_trailing"),
}


@memo
def filters_run():
    p = runs.prog()
    f = p.need("sequence_run_filters")
    e = Engine(p, opaque=[c for c, _ in CLEANERS.values() if p.fn(c) is not None], budget=1000000)
    e.merge_limit = 1 << 30
    return Run(e, e.run_root(f), f.name)


def c26(rep):
    p = runs.prog()
    order = rep.rule("in order", "the filters of the sequence are taken up one by one from the first on, and running ends only "
                     "behind the last one (or when a filter has no result)")
    once = rep.rule("one cleaner", "each filter taken up runs exactly one cleaner: the one its kind names")
    chain = rep.rule("composed", "a cleaner works on the result of the filter before, the first one on the name given")
    own = rep.rule("own settings", "a cleaner is given the table or setting of the filter that is being run")
    ret = rep.rule("result", "what is returned is the result of the last filter")
    f = p.need("sequence_run_filters")
    r = filters_run()
    rep.note(function=f.name, paths=len(r.results), event_nodes=len(r.nodes))
    by = {c: (k, fld) for k, (c, fld) in CLEANERS.items()}
    if len(p.kinds) != len(CLEANERS):
        rep.unsure(once, "detox_struct.h", "the filter kinds are not defined as FILTER_*")
        for x in (order, once, chain, own, ret):
            rep.need.discard(x)
        return
    seq, name = arg(f, 0), arg(f, 1)
    main = None
    for lp in loops(r):
        its = list(iterations(lp))
        if not any(e.kind == "call" and e.name in by for _, _, evs in its for e in evs):
            continue
        where = "%s:%s" % (r.root, lp.key[1])
        ws = walks(p, lp)
        if len(ws) != 1:
            rep.unsure(order, where, "%d variables of the loop step through a list" % len(ws))
            for x in (order, once, chain, own, ret):
                rep.need.discard(x)
            continue
        w = ws[0]
        v = is_field(p, w.init, seq, "filters")
        if v is False and w.init.t:
            ff = field(single(w.init))
            v = False if ff is not None else None
        rep.judge(order, where + " start", v, "running starts at %s" % show(w.init))
        carried = None
        for k, (h, s, evs) in enumerate(its):
            fx = s.facts
            cur = w.cursor(h)
            nv = s.phi_next[w.var]
            st = is_field(p, nv, cur, "next")
            if st is not True and nv == h.pv[w.var]:
                st = None if not [e for e in evs if e.kind == "call" and e.name in by] else False
            rep.judge(order, where + " step", st, "after a filter, %s is taken up" % show(nv))
            calls = [e for e in evs if e.kind == "call" and e.name in by]
            if len(calls) != 1:
                rep.bad(once, where, "%d cleaners are run for one filter (%s)" % (len(calls), " ".join(e.name for e in calls)))
                continue
            e = calls[0]
            judge_call(rep, p, once, own, e, fx, cur, by)
            # composition
            cand = {x for x in lp.init if x != w.var and h.pv[x] == e.args[0] and s.phi_next[x] == e.ret}
            # a turn that can only be the first one: what is carried on is still what it starts as
            fresh = [x for x in lp.init if x != w.var and s.phi_next[x] == e.ret and
                     fx.decide("eq", h.pv[x], lp.init[x], 64) is True]
            if not cand and fresh and e.args[0] == A(name):
                rep.ok(chain, site(e), "%s works on the name given in the first turn" % e.name)
            elif not cand:
                rep.judge(chain, site(e), False if any(h.pv[x] == e.args[0] for x in lp.init) or
                          e.args[0] == A(name) else None,
                          "%s works on %s and its result becomes %s" % (e.name, show(e.args[0]), " ".join(
                              show(s.phi_next[x]) for x in lp.init if x != w.var)))
            else:
                rep.ok(chain, site(e), "%s works on the result before and its result is passed on" % e.name)
                carried = cand if carried is None else carried & cand
        if carried:
            for x in carried:
                c = lp.pre.content(*lp.pre.split(lp.init[x])) if lp.init[x].t else None
                rep.judge(chain, where + " first", True if c is not None and is_text(c, name) else False if c is not None
                          else None, "the first filter works on %s" % show_parts(c) if c is not None else "?")
        main = (lp, w, carried or set())
    if main is None:
        if not rep.unsurel:
            rep.bad(order, r.root, "no loop over the filters runs the cleaners")
            for x in (once, chain, own, ret):
                rep.need.discard(x)
        return
    lp, w, carried = main
    for s, rv in r.results:
        fx = s.facts
        evs = s.events()
        if rv == K(0) and null(fx, name) is True:
            rep.ok(ret, r.root, "no name, no result")
            continue
        ex = [k for k, e in enumerate(evs) if e.kind == "loop-exit" and e.x["loop"] is lp]
        if not ex:
            b, o = s.split(rv)
            c = s.content(b, o) if b is not None else None
            fl = [A(at) for at in fx_fields(fx, seq, p, "filters")]
            if any(null(fx, x) is True for x in fl) and c is not None and is_text(c, name):
                rep.ok(ret, r.root, "no filters: the name itself")
            else:
                rep.judge(ret, r.root, None if c is not None and not is_text(c, name) else False,
                          "%s is returned without running the filters" % show(rv))
            continue
        lo = max([k for k, e in enumerate(evs[:ex[-1]]) if e.kind == "loop" and e.x["loop"] is lp], default=-1)
        calls = [e for e in evs[lo + 1:ex[-1]] if e.kind == "call" and e.name in by]
        late = [e for e in evs[ex[-1]:] if e.kind == "call" and e.name in by]
        if late or len(calls) > 1:
            rep.bad(once, r.root, "a cleaner is run in addition to those of the filters")
            continue
        hs = [h for h in lp.heads]
        ok = False
        if calls:
            e = calls[0]
            cur = None
            for h in hs:
                for at in (w.cursor(h),):
                    if at is not None:
                        cur = at
            judge_call(rep, p, once, own, e, fx, cur, by)
            nx = [A(at) for at in fx_fields(fx, cur, p, "next")]
            stop = any(null(fx, x) is True for x in nx) or null(fx, e.ret) is True
            rep.judge(order, r.root, stop, "running ends before the last filter")
            rep.judge(ret, r.root, rv == e.ret or rv == K(0) and null(fx, e.ret) is True, "%s is returned" % show(rv))
            continue
        stop = any(null(fx, h.pv[w.var]) is True for h in hs)
        gone = any(null(fx, h.pv[x]) is True for h in hs for x in carried)
        rep.judge(order, r.root, True if stop or gone else False, "running ends before the last filter")
        if not carried:
            continue
        ok = any(rv == h.pv[x] for h in hs for x in carried) or gone and (rv == K(0) or null(fx, rv) is True)
        rep.judge(ret, r.root, ok, "%s is returned" % show(rv))


def fx_fields(fx, base, p, name):
    out = []
    seen = set()
    for at in list(fx.dom) + list(fx.iv) + [a for c, _ in fx.pred for a in atoms_of(c)] + [
            a for x in list(fx.lin) + list(fx.ne) for a in atoms_of(x)]:
        if at in seen:
            continue
        seen.add(at)
        f = field(at)
        if f is not None and f[0] == base and p.field(f[1], f[2]) == name:
            out.append(at)
    return out


def kind_values(p, fx, cur):
    """The kinds the filter at cur may have: names, or None when the path never looked."""
    ats = fx_fields(fx, cur, p, "cleaner")
    if not ats:
        return None
    return {k for k, n in p.kinds.items() if all(fx.decide("eq", A(at), K(n), 32) is not False for at in ats)}


def judge_call(rep, p, once, own, e, fx, cur, by):
    kind, fld = by[e.name]
    ks = kind_values(p, fx, cur)
    rep.judge(once, site(e), ks == {kind}, "%s is run for %s" % (
        e.name, "any filter" if ks is None else "filters of kind " + " ".join(sorted(ks)) if ks else "no known kind"))
    if fld is not None and len(e.args) > 1:
        v = e.args[1]
        ok = is_field(p, v, cur, fld)
        if ok is not True and fld == "remove_trailing":
            ok = same_truth(p, fx, v, cur, fld)
        rep.judge(own, site(e), ok, "%s is given %s" % (e.name, show(v)))


def same_truth(p, fx, v, cur, fld):
    """For a setting that only counts as on or off."""
    ats = fx_fields(fx, cur, p, fld)
    if not v.t:
        known = {fx.decide("ne", A(at), K(0), 32) for at in ats} - {None}
        return False if not known else known == {v.c != 0}
    for x, on in ((v, "ne"), (sub(K(1), v), "eq")):
        at = single(x)
        if at is not None and at[0] == "cmp" and at[1] in ("ne", "eq") and at[4] == K(0):
            f = is_field(p, at[3], cur, fld)
            return at[1] == on if f is True else None
    return is_field(p, v, cur, fld)


# ---------------------------------------------------------------- C27

STANDARD = {"ISO8859_1": ("iso8859_1.tbl", "iso8859_1"), "UTF_8": ("unicode.tbl", "unicode"), "SAFE": ("safe.tbl", "safe")}
BUILTINS = ("iso8859_1", "unicode", "safe", "cp1252")
DIRS = ("/usr/local/share/detox/", "/usr/share/detox/", "/usr/local/share/detox/")   # the first is DATADIR


@memo
def tables_run():
    p = runs.prog()
    f = p.need("sequence_review")
    op = ["parse_table"] + ["load_builtin_%s_table" % b for b in BUILTINS]
    e = Engine(p, opaque=[n for n in op if p.fn(n) is not None], budget=2000000)
    e.merge_limit = 1 << 30
    return Run(e, e.run_root(f, nonnull=tuple(n for n, _ in f.args)), f.name)


class Wrong(Exception):
    pass


class Dunno(Exception):
    pass


def pointer_cases(fx, cur, p, name):
    """What a pointer field of the structure at cur may be on the path: subset of {"null", "set"}."""
    out = {"null", "set"}
    for at in fx_fields(fx, cur, p, name):
        n = null(fx, at)
        if n is True:
            out.discard("set")
        elif n is False:
            out.discard("null")
    return out


def builtin_name(p, evs, fx, cur):
    """(name the builtin field is known to equal, names it is known to differ from) on the path."""
    eq, ne = None, set()
    for e in evs:
        if e.kind == "call" and e.name in COMPARES:
            for a, b in ((e.strs.get(0), e.strs.get(1)), (e.strs.get(1), e.strs.get(0))):
                if b is not None and len(b) == 1 and b[0][0] == "lit" and text_field(p, a, cur, "builtin"):
                    r = fx.decide("eq", e.ret, K(0), 32)
                    if r is True:
                        eq = b[0][1].decode("latin-1")
                    elif r is False:
                        ne.add(b[0][1].decode("latin-1"))
    return eq, ne


def judge_table(p, evs, fx, cur, kind, bt, fn, stored, stops):
    """Follows what the documentation prescribes for one filter; raises Wrong on a difference."""
    acts = [e for e in evs if e.kind == "call" and (e.name == "parse_table" or e.name.startswith("load_builtin_"))]

    def expect(k, name):
        if k >= len(acts):
            raise Wrong("%s is not tried" % name)
        e = acts[k]
        if name.startswith("load_builtin_"):
            if e.name != name:
                raise Wrong("%s is called instead of %s" % (e.name, name))
            return e
        c = e.strs.get(0)
        if e.name != "parse_table":
            raise Wrong("%s is called before %s is tried" % (e.name, name))
        if c is None:
            raise Dunno("the name of the table file is not known")
        if name == "its own":
            if not text_field(p, c, cur, "filename"):
                raise Wrong("%s is read instead of the file named" % show_parts(c))
        elif not (len(c) == 1 and c[0][0] == "lit"):
            raise Wrong("%s is read instead of %s" % (show_parts(c), name))
        elif c[0][1].decode("latin-1") != name:
            raise Wrong("%s is read instead of %s" % (c[0][1].decode("latin-1"), name))
        return e

    def end(k, value):
        if k != len(acts):
            raise Wrong("%s is called in addition" % acts[k].name)
        if value is None:
            if not stops:
                raise Wrong("the program goes on although no table was obtained")
            return
        if stops:
            raise Wrong("the program stops although the table was obtained")
        if stored != value:
            raise Wrong("the filter gets %s instead of the table obtained" % ("nothing" if stored is None else show(stored)))

    def gone(e):
        n = null(fx, e.ret)
        if n is None:
            if stops:
                raise Wrong("the program stops although the table may have been obtained")
            if stored != e.ret:
                raise Wrong("the table is not given to the filter")
            raise Wrong("it is not checked whether the table was obtained")
        return n
    if kind not in STANDARD:
        if acts:
            raise Wrong("%s is called for a filter of kind %s" % (acts[0].name, kind))
        if stops:
            raise Wrong("the program stops for a filter of kind %s" % kind)
        if stored is not None and stored != K(0):
            raise Wrong("a filter of kind %s gets a table" % kind)
        return
    std, own = STANDARD[kind]
    if bt == "set":
        eq, ne = builtin_name(p, evs, fx, cur)
        if eq is None:
            left = set(BUILTINS) - ne
            if left:
                raise Wrong("the builtin table %s is not looked for" % " ".join(sorted(left)))
            end(0, None)
            return
        if eq not in BUILTINS:
            raise Dunno("a builtin table %s" % eq)
        e = expect(0, "load_builtin_%s_table" % eq)
        if null(fx, e.ret) is not True:
            end(1, e.ret)
        else:
            end(1, None)
        return
    if fn == "set":
        e = expect(0, "its own")
        end(1, None if gone(e) else e.ret)
        return
    for k, d in enumerate(DIRS):
        e = expect(k, d + std)
        if not gone(e):
            end(k + 1, e.ret)
            return
    e = expect(len(DIRS), "load_builtin_%s_table" % own)
    n = null(fx, e.ret)
    end(len(DIRS) + 1, None if n is True else e.ret)


def c27(rep):
    p = runs.prog()
    rule = rep.rule("table", "each filter gets the table its settings name: the builtin one, else the file named, else the "
                    "standard file searched for in the documented directories, else the builtin of its kind; the program "
                    "stops if there is none, and kinds without table get none")
    every = rep.rule("every filter", "the table of every filter of the sequence is looked after, from the first on")
    f = p.need("sequence_review")
    r = tables_run()
    rep.note(function=f.name, event_nodes=len(r.nodes))
    if len(p.kinds) != len(CLEANERS) or any(p.fn("load_builtin_%s_table" % b) is None for b in BUILTINS) or \
            p.fn("parse_table") is None:
        rep.unsure(rule, "filter.c", "the loaders of the tables, or the kinds, are not found under their names")
        rep.need.clear()
        return
    tab = ("f", None, None)
    main = []
    for lp in loops(r):
        its = list(iterations(lp))
        if not any(e.kind == "call" and e.name == "parse_table" for _, _, evs in its for e in evs):
            continue
        where = "%s:%s" % (r.root, lp.key[1])
        ws = walks(p, lp)
        if len(ws) != 1:
            rep.unsure(every, where, "%d variables of the loop step through a list" % len(ws))
            rep.need.clear()
            return
        w = ws[0]
        main.append((lp, w))
        v = is_field(p, w.init, arg(f, 0), "filters")
        rep.judge(every, where + " start", v, "the search starts at %s" % show(w.init))
        for h, s, evs in its:
            cur = w.cursor(h)
            st = is_field(p, s.phi_next[w.var], cur, "next")
            rep.judge(every, where + " step", st, "after a filter, %s is taken up" % show(s.phi_next[w.var]))
            one(rep, p, rule, r, evs, s.facts, cur, False)
    for s, code in r.eng.exits:
        evs = s.events()
        if any(e.kind == "alloc-fail" for e in evs[-4:]):
            continue
        for lp, w in main:
            k = max([k for k, e in enumerate(evs) if e.kind == "loop" and e.x["loop"].key == lp.key], default=-1)
            if k < 0:
                continue
            curs = {w2.cursor(h) for w2 in walks(p, evs[k].x["loop"]) for h in evs[k].x["loop"].heads}
            for cur in curs:
                one(rep, p, rule, r, evs[k + 1:], s.facts, cur, s.facts.decide("ne", code, K(0), 32) is True or "zero")
            break
    for s, rv in r.results:
        evs = s.events()
        ok = None
        for lp, w in main:
            if any(e.kind == "loop-exit" and e.x["loop"] is lp for e in evs):
                ok = any(null(s.facts, h.pv[w.var]) is True for h in lp.heads)
        if not main:
            continue
        if ok is None:
            fl = fx_fields(s.facts, arg(f, 0), p, "filters")
            ok = any(null(s.facts, at) is True for at in fl)
        rep.judge(every, r.root + " end", ok, "it ends before the last filter")
    if not main and not rep.unsurel:
        rep.bad(every, r.root, "no loop over the filters obtains tables")
        rep.need.clear()


def one(rep, p, rule, r, evs, fx, cur, stops):
    ks = kind_values(p, fx, cur)
    ks = set(CLEANERS) if ks is None else ks
    stored = None
    for e in evs:
        if e.kind == "store" and e.name[0] == "f" and p.field(e.name[1], e.name[2]) == "table" and e.name[1] == "filter_t_ref":
            stored = e.args[1]
    last = [e for e in evs if e.kind in ("call", "store", "exit")]
    where = "%s %s" % (site(last[-1]) if last else r.root, "/".join(sorted(ks)))
    if stops == "zero":
        rep.bad(rule, where, "the program ends with status 0 while tables are obtained")
        return
    for kind in sorted(ks):
        for bt in sorted(pointer_cases(fx, cur, p, "builtin")):
            for fn in sorted(pointer_cases(fx, cur, p, "filename")):
                txt = "kind %s, builtin %s, filename %s: " % (kind, bt, fn)
                try:
                    judge_table(p, evs, fx, cur, kind, bt, fn, stored, stops)
                    rep.ok(rule, where, txt + "as documented")
                except Wrong as x:
                    rep.bad(rule, where, txt + str(x))
                except Dunno as x:
                    rep.unsure(rule, where, txt + str(x))


# ---------------------------------------------------------------- C31

SYSTEM = (b"/usr/local/etc/detoxrc", b"/etc/detoxrc", b"/usr/local/etc/detoxrc")     # the first is SYSCONFDIR
HOMES = ((b"HOME", b"/.detoxrc"), (b"XDG_CONFIG_HOME", b"/detox/detoxrc"))
PATH_MAX_LEN = 256


def m_config(eng, st, i, args, name):
    """parse_config_file: what was there before if the file cannot be opened, else a configuration (the one that was
    there, extended, if any); C29 decides that it is so."""
    out = []
    for was in (True, False):
        a = st.fork()
        if len(args) > 1 and not a.assume_cmp("eq" if was else "ne", args[1], K(0), 64):
            continue
        for opened in (False, True):
            b = a.fork()
            prev = K(0) if was else args[1]
            if opened and was:
                ret = A(eng.leaf("ret", 64, "parse_config_file", eng.fresh_id(), ptr=True))
                b.assume_cmp("ne", ret, K(0), 64)
            else:
                ret = prev
            b.event("call", name, args, ret, i, strs=libc.contents(eng, b, args), opened=opened, opaque=True, epoch=b.fs)
            out.append((b, ret))
    return out


@memo
def config_run():
    p = runs.prog()
    f = p.need("config_file_load")
    models = {"!parse_config_file": m_config} if p.fn("parse_config_file") is not None else {}
    e = Engine(p, opaque=["spoof_config_file"], models=models, budget=2000000)
    e.merge_limit = 1 << 30
    return Run(e, e.run_root(f, nonnull=tuple(n for n, _ in f.args)), f.name)


def judge_config(p, evs, fx, o, rv, stops):
    acts = [e for e in evs if e.kind == "call" and e.name in ("parse_config_file", "spoof_config_file")]
    done = 0
    prev = K(0)

    def reads(e, what):
        c = e.strs.get(0)
        if e.name != "parse_config_file":
            raise Wrong("%s is called before %s is tried" % (e.name, what))
        if c is None:
            raise Dunno("the name of the file that is read is not known")
        if e.args[1] != prev and not (prev == K(0) and null(fx, e.args[1]) is True):
            raise Wrong("%s is not merged over what was read before" % show_parts(c))
        return c

    def text(e):
        return show_parts(e.strs.get(0)) if e.strs.get(0) is not None else "?"
    own = pointer_cases(fx, o, p, "check_config_file")
    if own == {"null", "set"}:
        raise Wrong("it is not looked at whether a file was given with -f")
    if own == {"set"}:
        if not acts:
            raise Wrong("the file given is not read")
        c = reads(acts[0], "the file given")
        if not text_field(p, c, o, "check_config_file"):
            raise Wrong("%s is read instead of the file given" % text(acts[0]))
        if len(acts) > 1:
            raise Wrong("%s is read beside the file given" % text(acts[1]))
        if not acts[0].x["opened"]:
            if not stops:
                raise Wrong("the program goes on although the file given cannot be opened")
            return
        if stops:
            raise Wrong("the program stops although the file given was read")
        if rv != acts[0].ret:
            raise Wrong("%s is returned" % show(rv))
        return
    if stops:
        raise Wrong("the program stops although no file was asked for")
    k = 0
    for cand in SYSTEM:
        if prev != K(0):
            break
        if k >= len(acts):
            raise Wrong("%s is not tried" % cand.decode())
        c = reads(acts[k], cand.decode())
        if c != (("lit", cand),):
            raise Wrong("%s is read instead of %s" % (text(acts[k]), cand.decode()))
        prev = acts[k].ret
        k += 1
    for var, tail in HOMES:
        at = ("leaf", "env", var, 64)
        if k < len(acts) and acts[k].name == "parse_config_file":
            c = acts[k].strs.get(0)
            if c is None:
                raise Dunno("the name of the file that is read is not known")
            if len(c) == 2 and c[0][:3] == ("src", at, K(0)) and c[1] == ("lit", tail):
                c = reads(acts[k], var.decode())
                prev = acts[k].ret
                k += 1
                continue
        unset = any(e.kind == "call" and e.name.endswith("getenv") and e.strs.get(0) == (("lit", var),) and
                    null(fx, e.ret) is True for e in evs)
        asked = any(e.kind == "call" and e.name.endswith("getenv") and e.strs.get(0) == (("lit", var),) for e in evs)
        ln = A(("leaf", "strlen", at, 0, 64))
        if unset or asked and fx.ge0(addc(ln, len(tail) - PATH_MAX_LEN)):
            continue
        raise Wrong("the file in %s is not tried" % var.decode())
    if prev == K(0):
        if k >= len(acts) or acts[k].name != "spoof_config_file":
            raise Wrong("the built-in configuration is not used although nothing could be opened")
        prev = acts[k].ret
        k += 1
    if k < len(acts):
        raise Wrong("%s %s in addition" % (acts[k].name, text(acts[k]) if acts[k].strs else ""))
    if rv != prev:
        raise Wrong("%s is returned instead of what was read" % show(rv))


def c31(rep):
    p = runs.prog()
    rule = rep.rule("order", "the file given with -f alone, or else the first system-wide candidate that can be opened, then "
                    "the one in HOME, then the one in XDG_CONFIG_HOME, each merged over the former; the built-in "
                    "configuration only if none could be opened")
    f = p.need("config_file_load")
    if p.fn("parse_config_file") is None or p.fn("spoof_config_file") is None:
        rep.unsure(rule, f.name, "the reader or the built-in configuration is not found under its name")
        rep.need.clear()
        return
    r = config_run()
    rep.note(function=f.name, paths=len(r.results), event_nodes=len(r.nodes))
    for lp in loops(r):
        if any(e.kind == "call" and e.name == "parse_config_file" for _, _, evs in iterations(lp) for e in evs):
            rep.unsure(rule, "%s:%s" % (f.name, lp.key[1]), "the files are read in a loop whose length is not known")
            rep.need.clear()
            return
    o = arg(f, 0)
    todo = [(s, rv, False) for s, rv in r.results]
    for s, code in r.eng.exits:
        if any(e.kind == "alloc-fail" for e in s.events()[-4:]):
            continue
        todo.append((s, code, True))
    for s, rv, stops in todo:
        evs = s.events()
        acts = [e for e in evs if e.kind == "call" and e.name in ("parse_config_file", "spoof_config_file")]
        where = site(acts[-1]) if acts else f.name
        if stops and s.facts.decide("ne", rv, K(0), 32) is not True:
            rep.bad(rule, where, "the program ends with status 0")
            continue
        try:
            judge_config(p, evs, s.facts, o, rv, stops)
            rep.ok(rule, where, "%d files tried" % len(acts))
        except Wrong as x:
            rep.bad(rule, where, x)
        except Dunno as x:
            rep.unsure(rule, where, x)
