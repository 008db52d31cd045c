"""C34, C09, C10, C11 and the option part of C01: options and the order of start-up (parse_options.c, detox.c)."""
import runs
from c_files import At, RENAMES, iterations, loops, path_runs, same, site, walker
from engine import show_parts
from interp import Engine
from runs import Run, memo, option, view
from terms import *  # noqa: F401,F403

SET, CLEAR, ARG = "set", "clear", "arg"
# what man/detox.1, README.md and the help text say: option -> (argument?, {field: effect}) or "exit"
DOC = {
    "-f": (1, {"check_config_file": ARG}),
    "-L": (0, {"list_sequences": SET}),
    "-n": (0, {"dry_run": SET}),
    "--dry-run": (0, {"dry_run": SET}),
    "-r": (0, {"recurse": SET}),
    "--recursive": (0, {"recurse": SET}),
    "-s": (1, {"sequence_name": ARG}),
    "--special": (0, {"special": SET}),
    "--inline": (0, {"is_inline_mode": SET}),
    "-v": (0, {"verbose": SET}),
    "--verbose": (0, {"verbose": SET}),
    "-h": (0, "exit"),
    "--help": (0, "exit"),
    "-V": (0, "exit"),
    "?": (0, "exit"),
}
SETTINGS = ("dry_run", "is_inline_bin", "is_inline_mode", "list_sequences", "recurse", "special", "verbose",
            "sequence_name", "check_config_file")


@memo
def options_run():
    """The option parser on any command line, every path kept apart."""
    p = runs.prog()
    f = p.fn("parse_options_getopt")
    if f is None:
        c = runs.containing(p, "getopt_long") or runs.containing(p, "getopt")
        if len(c) != 1:
            raise runs.program.AnalysisBroken("no function that parses options (getopt_long) was found")
        f = c[0]
    e = Engine(p, from_start=True, budget=1000000)
    e.merge_limit = 1 << 30
    return Run(e, e.run_root(f, nonnull=tuple(n for n, _ in f.args)), f.name)


def labels_of(evs):
    return [e for e in evs if e.kind == "option"]


def field_stores(p, evs):
    """field -> [store events], for the settings."""
    out = {}
    for e in evs:
        if e.kind == "store" and e.name[0] == "f" and e.name[1] == "options_t":
            out.setdefault(p.field("options_t", e.name[2]), []).append(e)
    return out


def effect(r, s, e, before):
    """What a store to a setting does: SET, CLEAR, ARG, 'same', or a description."""
    v = e.args[1]
    f = s.facts
    if before is not None and v == before:
        return "same"
    at = single(v)
    b, o = s.split(v)
    if b is not None and b[0] != "fn" and (b[0] == "obj" or r.eng.is_ptr(b)):
        c = s.content(b, o)
        if c and len(c) == 1 and c[0][0] == "src" and c[0][1][0] == "leaf" and c[0][1][1] == "optarg" and c[0][2] == K(0):
            return ARG
        if b[0] == "leaf" and b[1] == "optarg" and o == K(0):
            return ARG
        return "pointer to %s" % show_parts(c)
    vals = f.values(v)
    if vals is not None:
        return SET if 0 not in vals else CLEAR if vals == {0} else "set to one of %s" % sorted(vals)[:9]
    d = f.decide("ne", v, K(0), 32)
    if d is True:
        return SET
    if before is not None:
        st = sub(v, before)
        if not st.t and st.c > 0:
            return SET
    return None


def option_loops(r):
    return [lp for lp in loops(r) if any(labels_of(evs) for h, s, evs in iterations(lp))]


def before_value(p, h, field):
    off = p.offset("options_t", field)
    for (b, o), (v, cls) in h.mem.items():
        if cls == ("f", "options_t", off):
            return v
    return None


def judge_labels(rep, rule, only=None):
    """Each iteration of the option loop: the option met and what it does to the settings."""
    p = runs.prog()
    r = options_run()
    rep.note(event_nodes=len(r.nodes))
    met = {}
    lps = option_loops(r)
    if not lps:
        rep.unsure(rule, r.root, "no loop over the options was found")
        return
    for lp in lps:
        for h, s, evs in iterations(lp):
            rep.note(iteration_paths=1)
            labs = labels_of(evs)
            if len(labs) != 1:
                rep.unsure(rule, r.root, "an iteration handles %d options" % len(labs))
                continue
            lab = labs[0].x["label"]
            met.setdefault(lab, []).append((lp, h, s, evs, labs[0]))
    for s, code in r.eng.exits:
        evs = s.events()
        if evs[-1].kind == "exit" and any(e.kind == "alloc-fail" for e in evs[-4:]):
            continue
        labs = labels_of(evs)
        if labs and labs[-1].x["label"] != "end":
            met.setdefault(labs[-1].x["label"], []).append(("exit", s, evs, labs[-1]))
    opts = {e.x["label"]: e.x["optarg"] for n, e in r.events("option")}
    for lab, (arg, want) in DOC.items():
        if only and not (isinstance(want, dict) and only in want):
            continue
        if lab not in opts:
            rep.bad(rule, lab, "the documented option %s is not recognised" % lab)
            continue
        if opts[lab] != arg:
            rep.bad(rule, lab, "the option %s is documented to take %s" % (lab, "an argument" if arg else "no argument"))
            continue
        if lab not in met:
            rep.unsure(rule, lab, "no path handles this option")
        for m in met.get(lab, ()):
            if m[0] == "exit":
                if want == "exit":
                    rep.ok(rule, "%s %s" % (r.root, lab), "exits")
                else:
                    rep.bad(rule, "%s %s" % (r.root, lab), "the option ends the program at %s" % m[2][-1].loc())
                continue
            lp, h, s, evs, oe = m
            if want == "exit":
                rep.bad(rule, "%s %s" % (r.root, lab), "the option does not end the program")
                continue
            if any(h.pv.get(k) != v for k, v in getattr(s, "phi_next", {}).items()):
                rep.unsure(rule, "%s %s" % (r.root, lab), "the settings are kept in local variables")
                continue
            got = {}
            for fld, st in field_stores(p, evs).items():
                x = effect(r, s, st[-1], before_value(p, h, fld))
                if x != "same":
                    got[fld] = x
            if only:
                got = {k: v for k, v in got.items() if k == only}
            if any(v is None for v in got.values()):
                rep.unsure(rule, "%s %s" % (r.root, lab), "effect not understood: %s" % got)
            elif {k: v for k, v in got.items() if k in SETTINGS} == (want if not only else {only: want[only]}):
                rep.ok(rule, "%s %s" % (r.root, lab), "sets %s" % ", ".join(want))
            else:
                rep.bad(rule, "%s %s" % (r.root, lab), "the option %s does %s instead of %s" % (lab, got, want))
    if only:
        # no other option undoes it
        for lab, ms in met.items():
            for m in ms:
                if m[0] == "exit" or lab in DOC and isinstance(DOC[lab][1], dict) and only in DOC[lab][1]:
                    continue
                lp, h, s, evs, oe = m
                st = field_stores(p, evs).get(only)
                if st and effect(r, s, st[-1], before_value(p, h, only)) not in ("same", SET):
                    rep.bad(rule, "%s %s" % (r.root, lab), "the option %s changes %s" % (lab, only))


def later_stores(rep, rule, fields):
    """Stores to settings after the options were read: in the parser after its loop, and anywhere else."""
    p = runs.prog()
    r = options_run()
    for s, rv in r.results:
        evs = s.events()
        last = max([k for k, e in enumerate(evs) if e.kind == "option"], default=-1)
        for fld, st in field_stores(p, evs[last + 1:]).items():
            if fld in fields:
                x = effect(r, s, st[-1], None)
                old = [e for e in evs[:last] if e.kind == "store" and e.name == st[-1].name]
                if fld == "dry_run" and x == SET:
                    continue
                rep.bad(rule, site(st[-1]), "%s is changed after the options were read" % fld)
    n = 0
    for f in p.funcs.values():
        if f.key in r.eng.visited:
            continue
        for b in f.blocks.values():
            for i in b.insts:
                if i.op != "store":
                    continue
                c = r.eng.op_class(f, i.ops[1], i.extra["ty"])
                if c[0] == "f" and c[1] == "options_t" and p.field("options_t", c[2]) in fields:
                    n += 1
                    if i.ops[0][0] == "int" and i.ops[0][1] != 0 and fields == ("dry_run",):
                        continue
                    rep.bad(rule, "%s (in %s)" % (i.loc(), f.name), "%s is changed outside the option parser" %
                            p.field("options_t", c[2]))
    rep.ok(rule, "all functions", "%d later stores to %s" % (n, ", ".join(fields)))


def flag_is_kept(rep, rule, field, labels):
    judge_labels(rep, rule, only=field)
    later_stores(rep, rule, (field,))


# ---------------------------------------------------------------- C34

def c34(rep):
    p = runs.prog()
    rep.rule("option", "each documented option changes exactly the setting it names and takes an argument exactly when "
                       "documented; -h, -V and unknown options end the program")
    rep.rule("kept", "settings are not changed once the options have been read")
    rep.rule("program", "before the options are read, inline mode is set exactly if the program's base name is "
                        "inline-detox")
    rep.rule("environment", "before the options are read, the sequence name is what DETOX_SEQUENCE says, if set")
    rep.rule("files", "every remaining argument is put into the list of files, in order")
    judge_labels(rep, "option")
    later_stores(rep, "kept", SETTINGS)
    r = options_run()
    for lp in option_loops(r):
        for h in lp.heads:
            evs = h.events()
            initial(rep, p, r, evs, h)
    files_rule(rep, p, r)


def names_rule(rep):
    """Where the name of the sequence comes from (for C30)."""
    p = runs.prog()
    rep.rule("environment", "before the options are read, the sequence name is what DETOX_SEQUENCE says, if set")
    rep.rule("option", "-s sets the name, no other option changes it, and it is kept once the options have been read")
    flag_is_kept(rep, "option", "sequence_name", ())
    r = options_run()
    for lp in option_loops(r):
        for h in lp.heads:
            environment(rep, p, r, h.events(), h)


def initial(rep, p, r, evs, h):
    environment(rep, p, r, evs, h)
    st = field_stores(p, evs)
    m = st.get("is_inline_mode")
    if not m:
        rep.bad("program", r.root, "inline mode does not depend on the program name")
    else:
        v = m[-1].args[1]
        want = None
        # paths were split, or the value is the comparison itself
        ops = [a for a in atoms_of(v) if a[0] == "op"]
        ops += [a for a in h.facts.dom if a[0] == "op" and a[1] in ("strcmp", "strncmp", "strcasecmp")]
        good = odd = None
        for a in ops:
            if a[1] not in ("strcmp", "strcoll", "strncmp", "strcasecmp", "strncasecmp"):
                continue
            cs = [x[1] for x in a[4:6]]
            names = [c for c in cs if len(c) == 1 and c[0][0] == "lit"]
            base = [c for c in cs if len(c) == 1 and c[0][0] == "src" and c[0][1][0] == "leaf" and
                    (c[0][1][1] == "basename")]
            if a[1] in ("strcmp", "strcoll") and base and names and names[0][0][1] == b"inline-detox":
                good = a
            elif base or names:
                odd = a
        if good is not None:
            res = []
            for d, w in ((frozenset((0,)), True), (frozenset((-1, 1)), False)):
                f = h.fork()
                if h.facts.domof(good) is not None and not (h.facts.domof(good) & d):
                    continue
                f.setdom(good, d)
                res.append(f.facts.decide("ne", v, K(0), 32) is w)
            rep.judge("program", site(m[-1]), all(res), "is_inline_mode := %s" % show(v))
        elif odd is not None:
            rep.bad("program", site(m[-1]), "inline mode is decided by %s" % show(odd))
        else:
            rep.unsure("program", site(m[-1]), "is_inline_mode := %s" % show(v))


def environment(rep, p, r, evs, h):
    st = field_stores(p, evs)
    m = st.get("sequence_name")
    if not m:
        rep.bad("environment", r.root, "DETOX_SEQUENCE is not consulted before the options are read")
        return
    v = m[-1].args[1]
    at = single(v)
    b, o = h.split(v)
    c = h.content(b, o) if b is not None else None
    env = ("leaf", "env", b"DETOX_SEQUENCE", 64)
    unset = any(e.kind == "call" and e.name.endswith("getenv") and e.ret == K(0) and
                e.strs.get(0) == (("lit", b"DETOX_SEQUENCE"),) for e in evs)
    if at == env or c and len(c) == 1 and c[0][:3] == ("src", env, K(0)) or v == K(0) and unset:
        rep.ok("environment", site(m[-1]), show(v))
    else:
        rep.bad("environment", site(m[-1]), "sequence_name := %s" % show(v))


def files_rule(rep, p, r):
    seen = False
    for lp in loops(r):
        for h, s, evs in iterations(lp):
            if labels_of(evs) or lp in option_loops(r):
                continue
            names = [e for e in evs if e.kind == "read" and e.name in ("strdup", "strndup")]
            ind = [e for e in evs if e.kind == "store" and e.name == ("g", "optind")]
            puts = [e for e in evs if e.kind == "store" and e.name == ("f", "filelist_t", p.offset("filelist_t", "count"))]
            if not puts:
                continue
            seen = True
            at = single(names[0].args[0]) if len(names) == 1 else None
            if at is None or at[0] != "leaf" or at[1] != "mem" or at[2] != ("leaf", "arg", "argv", 64):
                rep.unsure("files", site(puts[0]), "the name put is not understood")
                continue
            ok = None
            if ind:
                cur = addc(ind[-1].args[1], -1)
                ok = at[3] == scale(cur, 8)
            else:
                for k, v in h.pv.items():
                    nx = getattr(s, "phi_next", {}).get(k)
                    if nx is not None and nx == addc(v, 1):
                        ok = ok or at[3] == scale(v, 8)
            rep.judge("files", site(puts[0]), ok, "argv[%s]" % show(at[3]))
    if not seen:
        rep.unsure("files", r.root, "no loop puts names into a file list")


# ---------------------------------------------------------------- C10

WORK = ("stat", "fs")


def working(e, wk):
    """An event that examines, opens for traversal, filters or renames something."""
    return e.kind in WORK or e.kind == "open" and e.name in ("opendir", "fdopendir") or e.kind == "call" and \
        e.name in ("sequence_run_filters", "parse_inline", "fgets", wk.name, "parse_file") and True


def c10(rep):
    p = runs.prog()
    wk, k = walker()
    rep.rule("informs", "-h, -V and an unknown option print a message and exit")
    rep.rule("no-files", "the option parser returns only with -L, in inline mode, or with at least one file")
    rep.rule("early", "the options are read before any file is opened, examined or changed")
    rep.rule("list", "with -L nothing is examined, opened for traversal, filtered or renamed")
    r = options_run()
    rep.note(event_nodes=len(r.nodes))
    for lab in ("-h", "--help", "-V", "?"):
        got = False
        for s, code in r.eng.exits:
            evs = s.events()
            labs = labels_of(evs)
            if labs and labs[-1].x["label"] == lab:
                got = True
                tail = evs[evs.index(labs[-1]):]
                rep.judge("informs", "%s %s" % (r.root, lab), any(e.kind == "out" for e in tail),
                          "exits with status %s" % show(code))
        for lp in option_loops(r):
            for h, s, evs in iterations(lp):
                if any(e.x["label"] == lab for e in labels_of(evs)):
                    got = True
                    rep.bad("informs", "%s %s" % (r.root, lab), "%s does not end the program" % lab)
        for s, rv in r.results:
            labs = labels_of(s.events())
            if labs and labs[-1].x["label"] == lab:
                got = True
                rep.bad("informs", "%s %s" % (r.root, lab), "%s does not end the program" % lab)
        if not got:
            rep.bad("informs", "%s %s" % (r.root, lab), "no path handles %s" % lab)
    for s, rv in r.results:
        if rv == K(0):
            continue
        l, i = option(p, At(s), "list_sequences"), option(p, At(s), "is_inline_mode")
        evs = s.events()
        last = max([k for k, e in enumerate(evs) if e.kind == "option"], default=-1)
        put = any(e.kind == "loop" and any(x.kind == "store" and x.name[1] == "filelist_t" for _, _, es in
                  iterations(e.x["loop"]) for x in es) for e in evs[last + 1:])
        some = put and some_file(r, s)
        if l is True or i is True or some:
            rep.ok("no-files", r.root, "list_sequences=%s inline=%s files=%s" % (l, i, some))
        else:
            rep.bad("no-files", r.root, "the parser returns without -L, inline mode or a file (list_sequences=%s "
                    "inline=%s)" % (l, i))
    a = runs.files_run()
    for n, e in a.events("option"):
        early = [m.event for m in a.before(n) if m.event is not None and (m.event.kind in WORK or m.event.kind == "open")]
        rep.judge("early", site(e), not early, "after %s" % (early[0] if early else ""))
    for r in (runs.args_run(),):
        rep.note(event_nodes=len(r.nodes))
        for n, e in r.events():
            if not working(e, wk):
                continue
            at = e
            if "mem" not in e.x:
                at = At2(e)
            o = option(p, at, "list_sequences")
            if o is False:
                rep.ok("list", site(e), str(e)[:100])
            else:
                rep.bad("list", site(e), "%s is reached although -L may have been given" % e.name)


class At2:
    def __init__(self, e):
        self.facts, self.x = e.facts, {}


def some_file(r, s):
    """Facts say that the index of the first file is below argc."""
    argc = A(("leaf", "arg", "argc", 32))
    f = s.facts
    for at in set(a for x in f.lin for a in atoms_of(x)) | {a for c, t in f.pred for a in atoms_of(c)}:
        if at[0] == "leaf" and at[1] == "size" and "optind" in at and f.gt0(sub(argc, A(at))):
            return True
    return False


# ---------------------------------------------------------------- C11

def c11(rep):
    p = runs.prog()
    wk, k = walker()
    rep.rule("config", "files and text are processed only once a configuration is present and a sequence is selected")
    rep.rule("tables", "files and text are processed only after the tables of the selected sequence were obtained")
    rep.rule("options", "files and text are processed only after the options were read")
    rep.rule("reports", "a failed start-up step is reported on standard error and ends with a failure status")
    a = runs.args_run()
    rep.note(event_nodes=len(a.nodes))
    so = p.offset("options_t", "sequence_to_use")
    named = {n: p.fn(n) is not None for n in ("sequence_review", "config_file_load", "parse_options_getopt")}
    for n, e in a.events():
        if not working(e, wk):
            continue
        hist = [m.event for m in a.before(n) if m.event is not None]
        f = e.facts
        cfg = [x for x in hist if x.kind == "call" and x.name == "config_file_load"]
        if not named["config_file_load"]:
            rep.unsure("config", site(e), "config_file_load is gone")
        else:
            miss = a.on_all_paths(n, lambda x: x.kind == "call" and x.name == "config_file_load")
            nn = cfg and all(f.decide("ne", x.ret, K(0), 64) is True for x in cfg)
            seq = seq_value(p, f, hist)
            ns = seq is not None and f.decide("ne", seq, K(0), 64) is True
            if miss is None and nn and ns:
                rep.ok("config", site(e), str(e)[:100])
            else:
                rep.bad("config", site(e), "%s is reached although %s" % (e.name, "no configuration was loaded" if
                        miss is not None or not nn else "no sequence may have been selected"))
        if not named["sequence_review"]:
            rep.unsure("tables", site(e), "sequence_review is gone")
        else:
            miss = a.on_all_paths(n, lambda x: x.kind == "call" and x.name == "sequence_review")
            rev = [x for x in hist if x.kind == "call" and x.name == "sequence_review"]
            seq = seq_value(p, f, hist)
            if miss is None and any(x.args and x.args[0] == seq for x in rev):
                rep.ok("tables", site(e), str(e)[:100])
            else:
                rep.bad("tables", site(e), "%s is reached without sequence_review of the selected sequence" % e.name)
        if not named["parse_options_getopt"]:
            rep.unsure("options", site(e), "parse_options_getopt is gone")
        else:
            miss = a.on_all_paths(n, lambda x: x.kind == "call" and x.name == "parse_options_getopt")
            rep.judge("options", site(e), miss is None, "%s is reached before the options are read" % e.name)
    lo = "list_sequences"
    for r in (a, tables_run()):
        for s, code in r.eng.exits:
            evs = s.events()
            if r is a and any(working(e, wk) for e in evs):
                continue
            x = evs[-1]
            if r is a and option(p, At(s), lo) is True and code == K(0):
                rep.ok("reports", site(x), "-L")
                continue
            bad = s.facts.decide("ne", code, K(0), 32) is not True
            said = any(e.kind == "out" and e.x.get("stream") == "stderr" for e in evs)
            rep.judge("reports", site(x), not bad and said, "exits %s%s" % (
                "with status 0" if bad else "", "" if said else " without a message on standard error"))
    # main does not return before processing
    for s, rv in a.results:
        evs = s.events()
        if any(working(e, wk) for e in evs) or any(e.kind == "loop" for e in evs):
            continue
        if any(e.kind == "call" and e.name == "sequence_review" for e in evs):
            continue
        rep.judge("reports", "main", s.facts.decide("ne", rv, K(0), 32) is True and
                  any(e.kind == "out" and e.x.get("stream") == "stderr" for e in evs),
                  "main returns %s before anything was processed" % show(rv))
    for s, rv in tables_run().results:
        evs = s.events()
        opens = [e for e in evs if e.kind == "tables"]


def seq_value(p, f, hist):
    """The value last stored to options_t.sequence_to_use on the way."""
    so = ("f", "options_t", p.offset("options_t", "sequence_to_use"))
    st = [x for x in hist if x.kind == "store" and x.name == so]
    vals = {x.args[1] for x in st}
    return vals.pop() if len(vals) == 1 else None


@memo
def tables_run():
    """Obtaining the tables of a sequence, with the reading of one table as a black box."""
    p = runs.prog()
    f = p.need("sequence_review")
    op = [n for n in ("parse_table", "load_builtin_safe_table", "table_free") if p.fn(n) is not None]
    op = [n for n in op if not n.startswith("load")]
    e = Engine(p, opaque=op, budget=2000000)
    e.merge_limit = 1 << 30
    return Run(e, e.run_root(f, nonnull=tuple(n for n, _ in f.args)), f.name)


# ---------------------------------------------------------------- C09

def c09(rep):
    p = runs.prog()
    rep.rule("no-change", "no call that changes the file system is reached in inline mode")
    rep.rule("no-walk", "the handling of files and directories is not reached in inline mode")
    rep.rule("output", "everything written in inline mode goes to standard output or standard error")
    r = runs.inline_run()
    rep.note(event_nodes=len(r.nodes), functions=len(r.eng.visited))
    wk, k = walker()
    for n, e in r.events("fs"):
        o = option(p, e if "mem" in e.x else At2(e), "is_inline_mode")
        rep.judge("no-change", site(e), o is False, "%s(%s) is reached in inline mode" % (
            e.name, ", ".join(show_parts(e.strs[j]) for j in sorted(e.strs))))
    rep.ok("no-change", "main", "%d event nodes" % len(r.nodes))
    for n, e in r.events("call", "open"):
        if e.name in ("parse_file", wk.name) or e.kind == "open" and e.name == "opendir":
            o = option(p, e if e.x.get("mem") else At2(e), "is_inline_mode")
            rep.judge("no-walk", site(e), o is False, "%s is reached in inline mode" % e.name)
    for n, e in r.events("out"):
        st = e.x.get("stream")
        if st in ("stdout", "stderr"):
            rep.ok("output", site(e), st)
        else:
            rep.bad("output", site(e), "%s writes to %s" % (e.name, st))
