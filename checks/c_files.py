"""C01-C08 and C12: what happens to files and directories (src/file.c, src/detox.c)."""
import libc
import runs
from libc import slash_free
from runs import DIR, REG, kinds, option, view
from engine import show_parts
from terms import *  # noqa: F401,F403

RENAMES = {"rename", "renameat", "renameat2"}


# ---------------------------------------------------------------- helpers

def paths_of(e):
    """(old, new) contents of a rename event."""
    if e.name == "rename":
        return e.strs.get(0), e.strs.get(1)
    return e.strs.get(1), e.strs.get(3)


def same(v, x, y):
    """Whether two contents are the same text (True / None)."""
    if x is None or y is None:
        return None
    if x == y:
        return True
    x, y = canon(v, x), canon(v, y)
    if x == y:
        return True
    if len(x) != len(y):
        return None
    f = v.facts
    for p, q in zip(x, y):
        if p == q:
            continue
        if p[0] != q[0] or p[0] not in ("src", "sub") or p[1] != q[1] or p[-1] != q[-1]:
            return None
        if not f.eq0(sub(p[2], q[2])) or p[0] == "sub" and not f.eq0(sub(p[3], q[3])):
            return None
    return True


def canon(v, parts):
    out = []
    f = v.facts
    for k, p in enumerate(parts):
        if p[0] == "sub":
            n = sub(v.strlen_atom(p[1], p[4]), p[2])
            if f.eq0(sub(p[3], n)):
                p = ("src", p[1], p[2], p[4])
        out.append(p)
    return tuple(out)


def atoms_in(eng, parts):
    return {p[1] for p in parts or () if p[0] in ("src", "sub")}


def entries_in(eng, parts):
    return {a for a in atoms_in(eng, parts) if a in eng.dirents}


def filtered(eng, parts):
    return {a for a in atoms_in(eng, parts) if a[0] == "leaf" and a[1] == "ret" and a[2] == "sequence_run_filters"}


def loops(run):
    """The final loops of a run: [Loop]."""
    seen, out = set(), []
    for n, e in run.events("loop"):
        lp = e.x["loop"]
        if id(lp) not in seen and lp.backs:
            seen.add(id(lp))
            out.append(lp)
    return out


def iterations(lp):
    for h, s in lp.backs:
        yield h, s, s.events(since=h.hnode)


def entry_loops(run):
    out = []
    for lp in loops(run):
        if any(e.kind == "call" and e.name.startswith("readdir") for h, s, evs in iterations(lp) for e in evs):
            out.append(lp)
    return out


def iteration_entry(eng, h, evs):
    """The directory entries one iteration deals with."""
    c = {single(v) for v in h.pv.values()} & set(eng.dirents)
    if c:
        return c
    return {single(e.ret) for e in evs if e.kind == "call" and e.name.startswith("readdir")} & set(eng.dirents)


def walker(run=None):
    """(function, index of its path argument) of the directory walker, from what it opens."""
    w = runs.walk_run()
    f = runs.walk_fn(runs.prog())
    for n, e in w.events("open"):
        if e.name != "opendir":
            continue
        c = e.strs.get(0)
        if c is None or len(c) != 1 or c[0][0] != "src":
            continue
        for k, (nm, t) in enumerate(f.args):
            if c[0][1] == ("leaf", "arg", nm, 64) and c[0][2] == K(0):
                return f, k
    return f, None


def descents(evs, wk, k):
    """(event, path) of every descent among events: the walker called, or a directory opened."""
    for e in evs:
        if e.kind == "call" and e.name == wk.name and e.x.get("opaque"):
            yield e, e.strs.get(k if k is not None else 0)
        elif e.kind == "open" and e.name == "opendir":
            yield e, e.strs.get(0)


def rename_events(run):
    for n, e in run.events("fs"):
        if e.name in RENAMES:
            yield n, e


class Rest:
    """The part of a run at call sites that the path-precise runs have not met."""

    def __init__(self, run, seen):
        self.run, self.seen, self.eng = run, seen, run.eng
        self.nodes = [n for n in run.nodes if n.event is not None and n.event.inst not in seen]

    def events(self, *kinds):
        return ((n, e) for n, e in self.run.events(*kinds) if e.inst not in self.seen)

    def before(self, n):
        return self.run.before(n)

    def on_all_paths(self, *a):
        return self.run.on_all_paths(*a)


def path_runs(*more):
    """The runs in which every path is kept apart, then whatever else is reachable from main."""
    rs = [runs.walk_run(), runs.args_run()]
    seen = {n.event.inst for r in rs for n in r.nodes if n.event is not None}
    yield from rs
    for g in (runs.files_run,) + more:
        r = g()
        yield Rest(r, seen)
        seen = seen | {n.event.inst for n in r.nodes if n.event is not None}


def site(e):
    return e.loc()


# ---------------------------------------------------------------- C01

def c01(rep):
    p = runs.prog()
    rep.rule("guarded", "wherever a call that changes the file system is reached, the option dry_run is known to be 0")
    rep.rule("set", "-n/--dry-run makes dry_run non-zero, and nothing makes it zero again")
    seen = set()
    for r in path_runs(runs.inline_run):
        rep.note(event_nodes=len(r.nodes), functions=len(r.eng.visited))
        for n, e in r.events("fs"):
            seen.add(e.inst)
            o = option(p, e, "dry_run")
            d = "%s(%s)" % (e.name, ", ".join(show_parts(e.strs[k]) for k in sorted(e.strs)))
            if o is False:
                rep.ok("guarded", site(e), d)
            elif o == "absent":
                rep.bad("guarded", site(e), d + " is reached on a path that never looked at dry_run")
            else:
                rep.bad("guarded", site(e), d + " is reached although dry_run may be set")
    # every other mutating call site: never reached in any context
    calls = mutator_sites(p)
    rep.note(mutating_call_sites=len(calls))
    for f, i in calls:
        if i not in seen:
            rep.ok("guarded", "%s (in %s)" % (i.loc(), f.name), "not reachable from main")
    # the option itself
    import c_options
    c_options.flag_is_kept(rep, "set", "dry_run", ("-n", "--dry-run"))


def mutator_sites(p):
    out = []
    eng = runs.Engine(p)
    for f in p.funcs.values():
        for b in f.blocks.values():
            for i in b.insts:
                if i.op == "call" and i.extra["callee"][0] == "glob":
                    c = i.extra["callee"][1]
                    if c in libc.FS_MUTATORS and p.func(f.module, c) is None and not eng.reads_only(f, i):
                        out.append((f, i))
    return out


# ---------------------------------------------------------------- C02

def c02(rep):
    rep.rule("checked", "before rename(a, b) an lstat of the very name b was made, nothing was renamed since, and it "
                        "failed, or showed the same device and inode as a with at most one link")
    rep.rule("only-rename", "no other call that could remove or replace a file is reached", required=False)
    for r in path_runs():
        rep.note(event_nodes=len(r.nodes))
        for n, e in r.events("fs"):
            if e.name not in RENAMES:
                if e.name in ("fopen", "open", "mkdir", "write"):
                    continue
                rep.bad("only-rename", site(e), "%s is called" % e.name)
                continue
            if e.name == "renameat2" and e.args[4] == K(1):
                rep.ok("checked", site(e), "RENAME_NOREPLACE")
                continue
            a, b = paths_of(e)
            if b is None or any(q[0] == "unk" for q in b):
                rep.unsure("checked", site(e), "the new name is not understood")
                continue
            v = view(e)
            ep = e.x.get("epoch")
            bad = r.on_all_paths(n, lambda x: x.kind == "stat" and x.name == "lstat" and x.x["fs"] == ep and
                                 same(v, x.strs.get(0), b) is True,
                                 lambda x: x.kind == "fs" and x.name in RENAMES and x.x.get("epoch") != ep)
            if bad is not None:
                rep.bad("checked", site(e), "rename to %s without an lstat of that name just before" % show_parts(b))
                continue
            sids, olds = [], []
            for m in r.before(n):
                x = m.event
                if x is None or x.kind != "stat" or x.name != "lstat" or x.x["fs"] != ep:
                    continue
                if same(v, x.strs.get(0), b) is True:
                    sids.append(x)
                if same(v, x.strs.get(0), a) is True and x.x["sid"]:
                    olds.append(x.x["sid"])
            for x in sids:
                if x.ret != K(0):
                    rep.ok("checked", site(e), "lstat(%s) failed before" % show_parts(b))
                    continue
                ok = False
                for o in olds:
                    f = e.facts
                    eqs = all(f.decide("eq", stat_leaf(r.eng, x.x["sid"], n2), stat_leaf(r.eng, o, n2), 64) is True
                              for n2 in ("st_dev", "st_ino"))
                    one = any(f.decide("sle", stat_leaf(r.eng, s, "st_nlink"), K(1), 64) is True
                              for s in (x.x["sid"], o))
                    ok = ok or (eqs and one)
                if ok:
                    rep.ok("checked", site(e), "same device and inode, at most one link")
                else:
                    rep.bad("checked", site(e), "rename to %s is reached although that name exists and is not known to "
                            "be the same file with a single link" % show_parts(b))


def stat_leaf(eng, sid, name):
    w = 64
    s = eng.prog.structs.get("stat")
    import llir
    for k in range(len(s.fields)):
        fo, ft = llir.field_offset(s, k)
        if eng.prog.field("stat", fo) == name:
            w = ft.bits
    return A(("leaf", "stat", sid, name, w))


# ---------------------------------------------------------------- C03

def split_name(r, e):
    """(prefix of b, T, W, why): a = prefix ++ T, b = prefix ++ W with W the filtered name; or why not."""
    a, b = paths_of(e)
    v = view(e)
    if a is None or b is None or any(q[0] == "unk" for q in a + b):
        return None, None, None, "?contents not understood"
    fl = filtered(r.eng, b[-1:])
    if not fl:
        return None, None, None, "the last part of the new name %s is not what the sequence returned" % show_parts(b)
    pre, W = b[:-1], b[-1:]
    n = v.plen(pre)
    T = v.tail(a, n)
    if T is None:
        return None, None, None, "the new name %s does not start like the old %s" % (show_parts(b), show_parts(a))
    h = v.head(a, n)
    if h is None or same(v, h, pre) is not True:
        return None, None, None, "the new name %s does not start like the old %s" % (show_parts(b), show_parts(a))
    return pre, T, W, None


def ends_in_slash(r, v, pre):
    if not pre:
        return True
    q = pre[-1]
    if q[0] == "lit":
        return q[1].endswith(b"/")
    if q[0] in ("src", "sub"):
        n = v.plen((q,))
        ver = q[3] if q[0] == "src" else q[4]
        at = single(v.src_byte(q[1], addc(add(q[2], n), -1), ver))
        d = v.facts.domof(at) if at else None
        return d == frozenset((47,))
    if q[0] == "byte":
        return v.facts.values(q[1]) == {47}
    return False


def c03(rep):
    rep.rule("prefix", "old name = P ++ T and new name = P ++ W, P empty or ending in a slash, T without slash")
    rep.rule("filtered", "W is what the sequence returned for exactly T")
    rep.rule("no-slash", "W is known to contain no slash")
    for r in path_runs():
        rep.note(event_nodes=len(r.nodes))
        for n, e in rename_events(r):
            pre, T, W, why = split_name(r, e)
            if why:
                if why[0] == "?":
                    rep.unsure("prefix", site(e), why)
                else:
                    rep.bad("prefix", site(e), why)
                continue
            v = view(e)
            d = "%s -> %s" % tuple(map(show_parts, paths_of(e)))
            if not ends_in_slash(r, v, pre):
                rep.bad("prefix", site(e), d + ": the kept part does not end in a slash")
            elif not all(slash_free(r.eng, v, q, 47) for q in T):
                rep.bad("prefix", site(e), d + ": the replaced part may contain a slash")
            else:
                rep.ok("prefix", site(e), d)
            if all(slash_free(r.eng, v, q, 47) for q in W):
                rep.ok("no-slash", site(e), d)
            else:
                rep.bad("no-slash", site(e), d + ": the new last component may contain a slash")
            at = W[0][1]
            src = [m.event for m in r.before(n) if m.event is not None and m.event.kind == "call" and
                   m.event.ret == A(at)]
            if W[0][0] == "src" and W[0][2] == K(0) and src and all(same(v, x.strs.get(1), T) is True for x in src):
                rep.ok("filtered", site(e), "T = %s" % show_parts(T))
            elif not src:
                rep.unsure("filtered", site(e), "the call of the sequence was not found")
            else:
                rep.bad("filtered", site(e), "%s, but the sequence ran on %s" % (
                    d, show_parts(src[0].strs.get(1))))


# ---------------------------------------------------------------- C04

def c04(rep):
    wk, k = walker()
    rep.rule("opens", "the directory walker opens exactly the path it was given")
    rep.rule("name", "every descent uses the new name if the rename succeeded and the examined name otherwise")
    w = runs.walk_run()
    for n, e in w.events("open"):
        if e.name == "opendir":
            rep.judge("opens", site(e), k is not None and e.strs.get(0) is not None and
                      e.strs[0] == (("src", ("leaf", "arg", wk.args[k][0], 64), K(0), e.strs[0][0][3]),),
                      "opendir(%s)" % show_parts(e.strs.get(0)))
    for r in (runs.walk_run(), runs.args_run()):
        rep.note(event_nodes=len(r.nodes))
        for lp in loops(r):
            for h, s, evs in iterations(lp):
                rep.note(iteration_paths=1)
                one_descent(rep, r, evs, wk, k)
        for st, code in r.eng.exits:
            pass


def one_descent(rep, r, evs, wk, k):
    item, won = None, None
    for e in evs:
        if e.kind == "stat" and item is None:
            item = e.strs.get(0)
        if e.kind == "fs" and e.name in RENAMES:
            won = paths_of(e)[1] if e.ret == K(0) else won
        for d, path in descents([e], wk, k):
            if item is None:
                continue
            v = view(d)
            want = won if won is not None else item
            if path is None or want is None or any(q[0] == "unk" for q in path + want):
                rep.unsure("name", site(d), "path not understood")
                continue
            what = "the rename succeeded" if won is not None else "nothing was renamed"
            if same(v, path, want) is True:
                rep.ok("name", site(d), "%s, descends into %s" % (what, show_parts(path)))
            else:
                rep.bad("name", site(d), "%s, but the descent goes into %s instead of %s" % (
                    what, show_parts(path), show_parts(want)))


# ---------------------------------------------------------------- C05

def kind_of(r, n, e, path, ep):
    """(set of kinds, 'lstat' or 'stat') known for path at an event, from the calls before it; None if never asked."""
    v = view(e)
    best = None
    for m in r.before(n):
        x = m.event
        if x is None or x.kind != "stat" or not x.x["sid"] or x.x["fs"] != ep:
            continue
        if same(v, x.strs.get(0), path) is True and x.name == "lstat":
            ks = kinds(e, x.x["sid"])
            if ks is not None:
                best = ks if best is None else best & ks
    return best


def c05(rep):
    p = runs.prog()
    wk, k = walker()
    rep.rule("kind", "a rename is reached only if lstat of the old name showed a directory or a regular file, or the "
                     "option special is non-zero")
    rep.rule("descend", "a directory is opened only after lstat of that very path showed a directory")
    for r in path_runs():
        rep.note(event_nodes=len(r.nodes))
        for n, e in rename_events(r):
            a, b = paths_of(e)
            if a is None or any(q[0] == "unk" for q in a):
                rep.unsure("kind", site(e), "the old name is not understood")
                continue
            ks = kind_of(r, n, e, a, e.x.get("epoch"))
            sp = option(p, e, "special")
            if sp is True:
                rep.ok("kind", site(e), "special is set")
            elif ks is not None and ks <= {DIR, REG}:
                rep.ok("kind", site(e), "lstat(%s) showed %s" % (show_parts(a), sorted(map(oct, ks))))
            elif ks is None:
                rep.bad("kind", site(e), "rename of %s without an lstat of it" % show_parts(a))
            else:
                rep.bad("kind", site(e), "rename of %s although it may be of kind %s and special may be off" % (
                    show_parts(a), sorted(map(oct, ks - {DIR, REG}))))
    own = True
    w = runs.walk_run()
    for n, e in w.events("open"):
        if e.name == "opendir":
            ks = kind_of(w, n, e, e.strs.get(0), e.x.get("epoch"))
            own = own and ks == {DIR}
    for r in path_runs():
        for n, e in r.events("open", "call"):
            for d, path in descents([e], wk, k):
                if r is w and e.kind == "open" and not own:
                    continue
                if e.kind == "call" and own:
                    rep.ok("descend", site(e), "the walker examines the path itself")
                    continue
                ks = kind_of(r, n, e, path, e.x.get("epoch"))
                if ks is None and path is not None:
                    # the name it had before a rename
                    for m in r.before(n):
                        x = m.event
                        if x is not None and x.kind == "fs" and x.name in RENAMES and x.ret == K(0) and \
                                same(view(e), paths_of(x)[1], path) is True:
                            ks = kind_of(r, m, x, paths_of(x)[0], x.x.get("epoch"))
                if ks == {DIR}:
                    rep.ok("descend", site(e), "lstat(%s) showed a directory" % show_parts(path))
                elif path is None:
                    rep.unsure("descend", site(e), "path not understood")
                else:
                    rep.bad("descend", site(e), "%s is descended into, which lstat has not shown to be a directory" %
                            show_parts(path))


# ---------------------------------------------------------------- C06

class At:
    """Facts and memory of a state, in the form the event queries take."""

    def __init__(self, s):
        self.facts, self.x = s.facts, {"mem": s.mem}


def c06(rep):
    p = runs.prog()
    wk, k = walker()
    w = runs.walk_run()
    rep.rule("needs-r", "a directory found inside another is descended into only if the option recurse is non-zero")
    rep.rule("with-r", "an iteration that examines an entry and finds a directory descends into it, or recurse is 0")
    rep.rule("given", "a given directory is walked")
    for r in path_runs():
        rep.note(event_nodes=len(r.nodes))
        for n, e in r.events("open", "call"):
            for d, path in descents([e], wk, k):
                inner = e.kind == "call" and e.x.get("recursive") or bool(entries_in(r.eng, path))
                if not inner:
                    continue
                o = option(p, e, "recurse")
                if o is True:
                    rep.ok("needs-r", site(e), "descends into %s" % show_parts(path))
                else:
                    rep.bad("needs-r", site(e), "descends into %s although recurse may be 0" % show_parts(path))
    for lp in entry_loops(w):
        for h, s, evs in iterations(lp):
            rep.note(iteration_paths=1)
            es = iteration_entry(w.eng, h, evs)
            st = [e for e in evs if e.kind == "stat" and e.name == "lstat" and e.x["sid"] and
                  entries_in(w.eng, e.strs.get(0)) & es]
            if not st:
                continue
            ks = kinds(At(s), st[0].x["sid"])
            if ks is None or DIR not in ks:
                continue
            if any(True for _ in descents(evs, wk, k)):
                rep.ok("with-r", site(st[0]), "descends")
                continue
            o = option(p, At(s), "recurse")
            if o is False:
                rep.ok("with-r", site(st[0]), "recurse is 0")
            else:
                rep.bad("with-r", site(st[0]), "an entry that may be a directory is not descended into although recurse "
                        "may be set")
    a = runs.args_run()
    for lp in loops(a):
        for h, s, evs in iterations(lp):
            if inline_mode(p, s) is not False:
                continue
            st = [e for e in evs if e.kind == "stat" and e.x["sid"]]
            if not st:
                continue
            ks = kinds(At(s), st[0].x["sid"])
            if ks is None or DIR not in ks:
                continue
            if any(True for _ in descents(evs, wk, k)):
                rep.ok("given", site(st[0]), "walked")
            else:
                rep.bad("given", site(st[0]), "a given directory is not walked")


def inline_mode(p, s):
    o = option(p, At(s), "is_inline_mode")
    return o


# ---------------------------------------------------------------- C07

def list_element(eng, parts):
    """(list base, index form) if the text is an element of a file list's array."""
    if parts is None or len(parts) != 1 or parts[0][0] != "src" or parts[0][2] != K(0):
        return None
    at = parts[0][1]
    if at[0] != "leaf" or at[1] != "mem":
        return None
    arr, off = at[2], at[3]
    if arr[0] != "leaf" or arr[1] != "mem" or arr[4][2] != ("f", "filelist_t", eng.prog.offset("filelist_t", "files")):
        return None
    return arr[2], off


def scan_loops(r):
    """Loop id -> (loop, entry atom -> list base) of loops that compare an entry with list element N, N = 0, 1, ..."""
    out = {}
    for lp in loops(r):
        info = {}
        ok = bool(lp.backs)
        odd = None
        for h, s, evs in iterations(lp):
            hit = None
            for e in evs:
                if e.kind == "call" and e.name in ("strcmp", "strcoll"):
                    for x, y in ((0, 1), (1, 0)):
                        c = e.strs.get(x)
                        le = list_element(r.eng, e.strs.get(y))
                        if c and len(c) == 1 and c[0][0] == "src" and c[0][1] in r.eng.dirents and \
                                c[0][2] == K(r.eng.dirents[c[0][1]]) and le:
                            if s.facts.decide("ne", e.ret, K(0), 32) is True:
                                if le[1] == scale(lp.N, 8):
                                    hit = (c[0][1], le[0])
                                elif not any(a[0] == "leaf" and a[1] == "N" and A(a) != lp.N for a in atoms_of(le[1])):
                                    odd = "starts at or steps by something other than the next name: element %s" % (
                                        show(le[1]))
            if hit is None:
                ok = False
            else:
                info[hit[0]] = hit[1]
        if ok or odd:
            out[id(lp)] = (lp, info, odd if not ok else None)
    return out


def compared(eng, e, D, lst, at):
    """Whether a comparison is between the entry D and the element at an index of the list."""
    for x, y in ((0, 1), (1, 0)):
        c, le = e.strs.get(x), list_element(eng, e.strs.get(y))
        if c and len(c) == 1 and c[0][0] == "src" and c[0][1] == D and le == (lst, scale(at, 8)):
            return True
    return False


def count_atoms(eng, f, lst):
    off = eng.prog.offset("filelist_t", "count")
    seen = set()
    for x in f.lin:
        seen |= atoms_of(x)
    seen |= set(f.iv) | set(f.dom)
    for c, t in f.pred:
        seen |= atoms_of(c)
    return [a for a in seen if a[0] == "leaf" and a[1] == "mem" and a[2] == lst and a[3] == K(off)]


def list_done(eng, f, lp, lst, more=0):
    """Whether the facts say the scan went through the whole list (or there is none); more: names compared in the turn
    that left the loop."""
    if f.decide("eq", A(lst), K(0), 64) is True:
        return True
    for c in count_atoms(eng, f, lst):
        if f.ge0(addc(sub(lp.N, A(c)), more)) or f.upper(A(c)) <= 0:
            return True
    return False


def scan_flag(eng, s, evs, D):
    """Whether the path was chosen by a value that a loop comparing the entry carries from turn to turn."""
    carried = set()
    for e in evs:
        if e.kind != "loop":
            continue
        for h, s2, evs2 in iterations(e.x["loop"]):
            if any(x.kind == "call" and x.name in ("strcmp", "strcoll") and
                   D in {a for c in x.strs.values() for a in atoms_in(eng, c)} for x in evs2):
                carried |= {a for v in h.pv.values() for a in atoms_of(v)
                            if a[0] == "leaf" and a[1] == "phi"}
    tested = set(s.facts.dom) | set(s.facts.iv)
    for c, t in s.facts.pred:
        tested |= atoms_of(c)
    return bool((carried & tested) - {D})


def forgets(eng, f, lp, D):
    """Whether the path was chosen by a flag that a turn of the scan puts back, whatever earlier turns found."""
    for h, s, evs in iterations(lp):
        if not any(x.kind == "call" and x.name in ("strcmp", "strcoll") and
                   D in {a for c in x.strs.values() for a in atoms_in(eng, c)} for x in evs):
            continue
        for res, v in h.pv.items():
            at = single(v)
            nv = getattr(s, "phi_next", {}).get(res)
            if at is None or at[0] != "leaf" or at[1] != "phi" or nv is None or repr(at) in repr(nv.t):
                continue
            d = f.domof(at)
            if d and len(d) == 1 and s.facts.decide("eq", v, K(min(d)), at[4]) is None and \
                    s.facts.decide("eq", nv, K(min(d)), at[4]) is not False:
                return True
    return False


def list_short(eng, f, lp, lst, more):
    """Whether the facts say a name is left that the scan did not come to."""
    return any(f.ge0(addc(sub(A(c), lp.N), -more - 1)) for c in count_atoms(eng, f, lst))


def c07(rep):
    p = runs.prog()
    wk, k = walker()
    rep.rule("dot", "an entry is renamed or descended into only if its first character is known not to be a period")
    rep.rule("ignored", "an entry is renamed or descended into only after it was compared unequal to every name of the "
                        "ignore list, first to last")
    rep.rule("considered", "an entry that is passed over starts with a period or equals a name of the ignore list")
    rep.rule("filtered", "the name of every directory and regular file that is not passed over is put through the sequence")
    rep.rule("list", "the list consulted is the one of the configuration")
    for r in path_runs():
        rep.note(event_nodes=len(r.nodes))
        scans = scan_loops(r.run if isinstance(r, Rest) else r)
        rep.note(list_scans=len(scans))
        for n, e in r.events("fs", "open", "call"):
            if e.kind == "fs":
                if e.name not in RENAMES:
                    continue
                path = paths_of(e)[0]
            else:
                ds = list(descents([e], wk, k))
                if not ds:
                    continue
                path = ds[0][1]
            ent = entries_in(r.eng, path)
            if not ent and e.kind != "fs" and e.x.get("recursive"):
                # descends into a renamed entry: the rename before it is judged
                continue
            for D in ent:
                off = r.eng.dirents[D]
                # only the last entry of a path is new; earlier components were judged when they were met
                at = ("leaf", "mem8", D, K(off), 0, 8)
                d = e.facts.domof(at)
                if d is not None and 46 not in d:
                    rep.ok("dot", site(e), "first character of %s is not a period" % show_parts(path))
                else:
                    rep.bad("dot", site(e), "%s is reached although the entry may start with a period" % e.name)
                verdict, why = None, "the ignore list is not consulted for this entry"
                cmp_seen = False
                trail = r.before(n)
                for k, m in enumerate(trail):
                    x = m.event
                    if x is None:
                        continue
                    if x.kind == "call" and x.name in ("strcmp", "strcoll", "strcasecmp", "strncmp", "memcmp") and any(
                            D in atoms_in(r.eng, c) for c in x.strs.values()):
                        cmp_seen = True
                    if x.kind == "loop" and forgets(r.eng, e.facts, x.x["loop"], D):
                        verdict, why = False, "a name that matches is forgotten when a later one does not"
                        break
                    if x.kind == "loop" and id(x.x["loop"]) in scans:
                        lp, info, odd = scans[id(x.x["loop"])]
                        if odd:
                            verdict, why = False, "the scan of the ignore list " + odd
                        elif D in info:
                            last = [y.event for y in trail[:k] if y.event is not None and y.event.kind == "call" and
                                    y.event.name in ("strcmp", "strcoll") and
                                    D in {a for c in y.event.strs.values() for a in atoms_in(r.eng, c)}]
                            sure = any(compared(r.eng, y, D, info[D], lp.N) and
                                       e.facts.decide("ne", y.ret, K(0), 32) is True for y in last)
                            verdict = list_done(r.eng, e.facts, lp, info[D], 1 if sure else 0)
                            if verdict:
                                break
                            if last and not list_short(r.eng, e.facts, lp, info[D], len(last)):
                                # left from the middle of a turn: what the last comparison said may have been dropped
                                verdict = "?"
                            why = "the scan of the ignore list may end before its last name"
                if verdict == "?":
                    rep.unsure("ignored", site(e), "left the scan of the ignore list in the middle of a turn")
                    continue
                if verdict is None:
                    # no scan: fine only if the list is known to be empty or absent
                    off_i = p.offset("options_t", "files_to_ignore")
                    for (b, o), (val, cls) in (e.x.get("mem") or {}).items():
                        if cls == ("f", "options_t", off_i):
                            lb = single(val)
                            if not val.t and val.c == 0 or lb and (e.facts.decide("eq", val, K(0), 64) is True or any(
                                    e.facts.upper(A(c)) <= 0 for c in count_atoms(r.eng, e.facts, lb))):
                                verdict = True
                    if verdict is None and cmp_seen:
                        rep.unsure("ignored", site(e), "comparison with the ignore list of an unknown form")
                        continue
                    if verdict is None:
                        verdict = False
                rep.judge("ignored", site(e), verdict, why if not verdict else show_parts(path))
    w = runs.walk_run()
    for lp in entry_loops(w):
        for h, s, evs in iterations(lp):
            rep.note(iteration_paths=1)
            es = iteration_entry(w.eng, h, evs)
            touched = [e for e in evs if e.kind in ("stat", "fs") and entries_in(w.eng, e.strs.get(0)) & es]
            for D in es:
                where = "%s (in %s)" % (lp.fn.name, lp.fn.module.name)
                if touched:
                    t = touched[0]
                    rep.ok("considered", site(t), "examined")
                    if t.kind == "stat" and t.x["sid"]:
                        ks = kinds(At(s), t.x["sid"])
                        if ks and ks & {DIR, REG}:
                            if any(e.kind == "call" and e.name == "sequence_run_filters" for e in evs):
                                rep.ok("filtered", site(t), "filtered")
                            elif runs.prog().fn("sequence_run_filters") is None:
                                rep.unsure("filtered", site(t), "no sequence_run_filters")
                            else:
                                rep.bad("filtered", site(t), "an entry that may be a directory or a regular file is not "
                                        "put through the sequence")
                    continue
                off = w.eng.dirents[D]
                d = s.facts.domof(("leaf", "mem8", D, K(off), 0, 8))
                why = None
                if d == frozenset((46,)):
                    why = "starts with a period"
                for at, dm in s.facts.dom.items():
                    if at[0] == "op" and at[1] == "strcmp" and dm == frozenset((0,)):
                        sides = [at[4][1], at[5][1]]
                        if any(D in atoms_in(w.eng, c) and c[0][2] == K(off) for c in sides) and \
                                any(list_element(w.eng, c) for c in sides):
                            why = "equals a name of the list"
                if why is None and scan_flag(w.eng, s, evs, D):
                    rep.unsure("considered", where, "passed over because of a value carried through the scan of the list")
                elif why:
                    rep.ok("considered", where, why)
                else:
                    rep.bad("considered", where, "an entry is passed over although it neither starts with a period nor "
                            "equals a name of the ignore list")
    a = runs.args_run()
    oi, ci = p.offset("options_t", "files_to_ignore"), p.offset("config_file_t", "files_to_ignore")
    got = None
    for n, e in a.events("store"):
        if e.name == ("f", "options_t", oi):
            at = single(e.args[1])
            good = at is not None and at[0] == "leaf" and at[1] == "mem" and at[4][2] == ("f", "config_file_t", ci)
            rep.judge("list", site(e), True if good else False if at is None else None,
                      "files_to_ignore := %s" % show(e.args[1]))
            got = e
    if oi is None or ci is None:
        rep.unsure("list", "main", "the ignore list is not kept where it was")
    elif got is None:
        rep.bad("list", "main", "the ignore list of the configuration is never handed to the walk")
    else:
        for n, e in a.events("call"):
            if e.name in (wk.name, "parse_file"):
                rep.judge("list", site(e), any(m.event is not None and m.event.kind == "store" and
                                               m.event.name == ("f", "options_t", oi) for m in a.before(n)),
                          "%s is called without the ignore list" % e.name)


# ---------------------------------------------------------------- C08

def c08(rep):
    rep.rule("differs", "a rename is reached only if the filtered name was found to differ from the present one")
    rep.rule("protected", "a rename is reached only if the last component is known to be neither . nor ..")
    for r in path_runs():
        rep.note(event_nodes=len(r.nodes))
        for n, e in rename_events(r):
            pre, T, W, why = split_name(r, e)
            a, b = paths_of(e)
            v = view(e)
            f = e.facts
            if T is None:
                if a is None or b is None:
                    rep.unsure("differs", site(e), "names not understood")
                    continue
            d = "%s -> %s" % (show_parts(a), show_parts(b))
            ok = False
            for at, dm in f.dom.items():
                if at[0] == "op" and at[1] in ("strcmp", "strcoll", "strncmp", "strcasecmp", "strncasecmp", "memcmp") \
                        and 0 not in dm:
                    x, y = at[4][1], at[5][1]
                    for s, t in ((x, y), (y, x)):
                        if T is not None and same(v, s, T) is True and same(v, t, W) is True:
                            ok = True
                        if same(v, s, a) is True and same(v, t, b) is True:
                            ok = True
            if not ok:
                ok = bytes_differ(f, T, W)
            rep.judge("differs", site(e), bool(ok), d + ("" if ok else ": the names may be the same"))
            if T is None:
                rep.unsure("protected", site(e), why)
                continue
            c = [byte_at(v, T, k) for k in range(3)]
            rep.judge("protected", site(e), protected(f, c), d + ": the last component may be . or ..")


def bytes_differ(f, T, W):
    """A comparison of bytes of T and W at the same distance came out unequal."""
    if not T or not W or len(T) != 1 or len(W) != 1 or T[0][0] != "src" or W[0][0] != "src":
        return False
    for c, t in f.pred:
        if c[0] != "cmp" or c[1] not in ("eq", "ne") or (c[1] == "ne") != t:
            continue
        x, y = single(c[3]), single(c[4])
        for p, q in ((x, y), (y, x)):
            p, q = strip(p), strip(q)
            if p and q and p[0] == q[0] == "leaf" and p[1] == q[1] == "mem8" and p[2] == T[0][1] and q[2] == W[0][1] \
                    and sub(p[3], T[0][2]) == sub(q[3], W[0][2]):
                return True
    return False


def strip(at):
    while at is not None and at[0] == "op" and at[1] in ("sext", "zext", "trunc"):
        at = single(at[4])
    return at


def byte_at(v, T, k):
    for p in T:
        if p[0] == "lit":
            if k < len(p[1]):
                return K(p[1][k])
            k -= len(p[1])
        elif p[0] == "byte":
            if k == 0:
                return p[1]
            k -= 1
        elif p[0] == "src":
            return v.src_byte(p[1], addc(p[2], k), p[3])
        else:
            return None
    return K(0)


def protected(f, c):
    """Whether the bytes exclude . and .. (True), or not (False), or are unknown (None)."""
    if c[0] is None:
        return None
    d0 = f.values(c[0])
    if d0 is not None and 46 not in d0:
        return True
    d1 = f.values(c[1]) if c[1] is not None else None
    d2 = f.values(c[2]) if c[2] is not None else None
    if d1 is None:
        return False
    no1 = 0 not in d1
    no2 = 46 not in d1 or d2 is not None and 0 not in d2
    if no1 and no2:
        return True
    for names in ((b".",), (b"..",)):
        pass
    # the strcmp form: strcmp(T, ".") != 0 and strcmp(T, "..") != 0
    lits = set()
    for at, dm in f.dom.items():
        if at[0] == "op" and at[1] == "strcmp" and 0 not in dm:
            for s, t in ((at[4][1], at[5][1]), (at[5][1], at[4][1])):
                if t and len(t) == 1 and t[0][0] == "lit" and len(s) == 1 and s[0][0] == "src":
                    b0 = single(c[0])
                    if b0 and b0[0] == "leaf" and b0[1] == "mem8" and b0[2] == s[0][1] and b0[3] == s[0][2]:
                        lits.add(t[0][1])
    return (no1 or b"." in lits) and (no2 or b".." in lits)


# ---------------------------------------------------------------- C12

def failures(r, evs):
    """(index, event, what) of the failures one path meets."""
    first = True
    seen_new = None
    for j, e in enumerate(evs):
        if e.kind == "stat":
            if first and e.ret == K(-1):
                yield j, e, "%s(%s) failed" % (e.name, show_parts(e.strs.get(0)))
            elif not first and e.ret == K(0) and filtered(r.eng, e.strs.get(0)):
                seen_new = (j, e)
            first = False
        elif e.kind == "fs" and e.name in RENAMES:
            seen_new = None
            if e.ret == K(-1):
                yield j, e, "%s(%s) failed" % (e.name, ", ".join(show_parts(c) for c in paths_of(e)))
        elif e.kind == "open" and e.ret == K(0):
            yield j, e, "%s(%s) failed" % (e.name, show_parts(e.strs.get(0)))
    if seen_new is not None:
        j, e = seen_new
        # the destination exists: a rename of the same file to itself aside, that has to be said
        yield j, e, "%s exists, so nothing was renamed" % show_parts(e.strs.get(0))


def complained(e):
    return e.kind == "out" and e.x.get("stream") == "stderr"


def c12(rep):
    p = runs.prog()
    wk, k = walker()
    rep.rule("reported", "a failed examination, rename or open, and an existing destination, is followed by a message on "
                         "standard error before the next entry, file or the end")
    rep.rule("carries-on", "no exit is reached while files are processed, except when memory or descriptors ran out")
    rep.rule("all-entries", "the walk over a directory ends only when no entry is left")
    rep.rule("all-files", "the walk over the given files ends only when none is left")
    w, a, l = runs.walk_run(), runs.args_run(), runs.lines_run()
    for r in (w, a):
        rep.note(event_nodes=len(r.nodes))
        for lp in loops(r):
            for h, s, evs in iterations(lp):
                rep.note(iteration_paths=1)
                tell(rep, p, r, evs, At(s))
    for r in (w, l):
        for s, rv in r.results:
            tell(rep, p, r, s.events(), At(s), whole=True)
    for r in (w, a, l):
        main = r is a
        for s, code in r.eng.exits:
            evs = s.events()
            x = evs[-1]
            why = None
            for e in reversed(evs[:-1]):
                if e.kind == "alloc-fail":
                    why = "out of memory"
                    break
                if e.kind == "open" and e.name == "opendir" and e.ret == K(0):
                    v = errno_at(s)
                    if v == {24}:
                        why = "out of descriptors"
                    break
            if why:
                rep.ok("carries-on", site(x), why)
                continue
            busy = [e for e in evs if e.kind in ("stat", "fs") or e.kind == "open" and e.name == "opendir" or
                    e.kind == "call" and e.name in ("readdir", "sequence_run_filters", "fgets", wk.name)]
            if main and not busy:
                continue
            rep.bad("carries-on", site(x), "exits after %s" % (busy[-1] if busy else "nothing"))
    # entries
    for s, rv in w.results:
        evs = s.events()
        if not any(e.kind == "open" and e.name == "opendir" and e.ret != K(0) for e in evs):
            continue
        ended(rep, w, s)
    for lp in entry_loops(w):
        for h, s, evs in iterations(lp):
            for e in evs:
                if e.kind == "close" and e.name == "closedir":
                    rep.bad("all-entries", site(e), "the directory is closed while entries are being read")
    # files
    for s, rv in a.results:
        evs = s.events()
        last = None
        for e in evs:
            if e.kind == "loop" and files_loop(e.x["loop"]):
                last = e
        if last is None:
            if option(p, At(s), "is_inline_mode") is False:
                rep.ok("all-files", "main", "no file was given")
            continue
        f = s.facts
        lp = last.x["loop"]
        tail = evs[evs.index(last) + 1:]
        took = [e for e in tail if e.kind in ("stat", "fs", "open") or e.kind == "call" and e.x.get("opaque")]
        if took:
            rep.bad("all-files", site(took[0]), "main returns in the middle of the list of files, after %s" % took[0])
        else:
            rep.ok("all-files", "%s loop %s" % (lp.fn.name, lp.info.header), "left when the list is exhausted")


def files_loop(lp):
    return any(e.kind in ("stat", "open") or e.kind == "call" and e.x.get("opaque")
               for h, s, evs in iterations(lp) for e in evs)


def errno_at(s):
    for (b, o), (v, cls) in s.mem.items():
        if b == ("obj", "errno"):
            return s.facts.values(v) or ({24} if s.facts.decide("eq", v, K(24), 32) is True else None)
    return None


def ended(rep, r, s):
    """Whether the path left the loop over the entries because none was left."""
    n, tail, h = s.ev, [], None
    heads = {}
    for lp in entry_loops(r):
        for hh in lp.heads:
            heads[hh.hnode.uid] = hh
    while n is not None:
        if n.uid in heads:
            h = heads[n.uid]
            break
        if n.event is not None:
            tail.append(n.event)
        n = n.prev[0] if n.prev else None
    tail.reverse()
    rd = [e for e in tail if e.kind == "call" and e.name.startswith("readdir")]
    where = tail[-1].loc() if tail else "?"
    if rd:
        rep.judge("all-entries", site(rd[-1]), rd[-1].ret == K(0), "the walk ends although readdir returned an entry")
    elif h is not None:
        # the head state: an entry in hand?
        D = {single(v) for v in h.pv.values()} & set(r.eng.dirents)
        D = {d for d in D if s.facts.decide("eq", A(d), K(0), 64) is not True}
        rep.judge("all-entries", where, not D, "the walk ends with an entry in hand")
    else:
        rep.ok("all-entries", where, "no entry")


def tell(rep, p, r, evs, at, whole=False):
    for j, e, what in failures(r, evs):
        if whole and e.kind == "stat":
            continue
        if whole and e.kind == "fs":
            continue
        rest = evs[j + 1:]
        if e.kind == "stat" and e.ret == K(0):
            # destination exists; said so, or dry run of a permitted rename
            if option(p, at, "dry_run") is True and same_file(r, evs, e, at):
                continue
        if any(complained(x) for x in rest):
            rep.ok("reported", site(e), what)
        else:
            rep.bad("reported", site(e), what + ", and no message goes to standard error")


def same_file(r, evs, e, at):
    for x in evs:
        if x is e:
            return False
        if x.kind == "stat" and x.x["sid"]:
            if all(at.facts.decide("eq", stat_leaf(r.eng, x.x["sid"], n), stat_leaf(r.eng, e.x["sid"], n), 64) is True
                   for n in ("st_dev", "st_ino")):
                return True
    return False


# ---------------------------------------------------------------- C42, C43

NLINK = "st_nlink"


def last_part(v, path):
    """The last component of a path, if a part starts right behind its last slash."""
    for k in range(len(path), 0, -1):
        if path[k - 1][0] == "lit" and path[k - 1][1].endswith(b"/"):
            return path[k:]
    return None


def is_dots(f, parts):
    """Whether the bytes known of some source in parts spell . or .. to its end."""
    if parts and len(parts) == 1 and parts[0][0] == "lit":
        return parts[0][1] in (b".", b"..")
    for at, d in f.dom.items():
        if at[0] == "leaf" and at[1] == "mem8" and d == frozenset((46,)):
            for n in (1, 2):
                nx = at[:3] + (addc(at[3], n),) + at[4:]
                dn = f.domof(nx)
                if dn == frozenset((0,)):
                    return True
                if dn != frozenset((46,)):
                    break
        if at[0] == "op" and at[1] == "strcmp" and d == frozenset((0,)) and any(
                len(c) == 1 and c[0][0] == "lit" and c[0][1] in (b".", b"..") for c in (at[4][1], at[5][1])):
            return True
    return False


def taken_by_other(r, s, x, olds):
    """x: a stat event that found the new name. True if the path knows it as another file or one with more links,
    False if it may well be the same file with one link, None if compared in an unknown way."""
    f = s.facts
    for o in olds:
        for nm in ("st_dev", "st_ino"):
            if f.decide("ne", stat_leaf(r.eng, x.x["sid"], nm), stat_leaf(r.eng, o, nm), 64) is True:
                return True
        for sid in (x.x["sid"], o):
            if f.decide("sgt", stat_leaf(r.eng, sid, NLINK), K(1), 64) is True or \
                    f.decide("ugt", stat_leaf(r.eng, sid, NLINK), K(1), 64) is True:
                return True
    for c, t in f.pred:
        for side in (c[3], c[4]) if c[0] == "cmp" else ():
            at = single(side)
            if at is not None and at[0] == "op" and any(
                    isinstance(y, tuple) and "stat" in str(y) for y in at[4:]):
                return None
    for e in s.events():
        if e.kind == "call" and e.name == "memcmp" and "stat" in str(e.args):
            return None
    return False


def outcome(p, r, s, evs):
    """What one path does about one name: dict with T, W, new, renamed (event), reasons [(text)], dry, unsure."""
    sq = [e for e in evs if e.kind == "call" and e.name == "sequence_run_filters"]
    rn = [e for e in evs if e.kind == "fs" and e.name in RENAMES]
    at = At(s)
    o = {"seq": sq, "rename": rn, "dry": option(p, at, "dry_run"), "why": None, "unsure": None, "text": None}
    if not sq:
        return o
    q = sq[-1]
    st = [e for e in evs if e.kind == "stat" and evs.index(e) < evs.index(q)]
    if s.facts.decide("eq", q.args[1], K(0), 64) is True:
        c = st[-1].strs.get(0) if st else None
        if is_dots(s.facts, last_part(view(None, s.facts), c or ())):
            o["why"] = "the name is . or .."
        return o
    if s.facts.decide("eq", q.ret, K(0), 64) is True:
        o["why"] = "a filter gave no name"
        return o
    if rn:
        a, b = paths_of(rn[-1])
        o["text"] = (a, b)
        return o
    v = view(None, s.facts)
    W0 = single(q.ret)
    T = q.strs.get(1)
    for at_, d in s.facts.dom.items():
        if at_[0] == "op" and at_[1] in ("strcmp", "strcoll") and d == frozenset((0,)):
            for x, y in ((at_[4][1], at_[5][1]), (at_[5][1], at_[4][1])):
                if y and len(y) == 1 and y[0][0] == "src" and y[0][1] == W0 and y[0][2] == K(0) and (
                        same(v, x, T) is True or T is not None and x and same(v, x[-len(T):], T) is True):
                    o["why"] = "the filtered name is the same"
                    return o
    for at_, d in s.facts.dom.items():
        if at_[0] == "leaf" and at_[1] == "mem8" and at_[2] == W0 and d == frozenset((47,)):
            o["why"] = "the filtered name contains a slash"
            return o
    after = evs[evs.index(q) + 1:]
    olds = [e.x["sid"] for e in evs if e.kind == "stat" and e.x["sid"] and not (
        e.strs.get(0) and any(z[0] == "src" and z[1] == W0 for z in e.strs[0]))]
    for e in after:
        if e.kind != "stat":
            continue
        c = e.strs.get(0)
        if c is None or any(z[0] == "unk" for z in c):
            o["unsure"] = "a file of a name that is not understood is examined"
            continue
        new = len(c) >= 1 and c[-1][0] == "src" and c[-1][1] == W0 and c[-1][2] == K(0)
        if not new:
            if e.ret == K(-1):
                o["why"] = "the file cannot be examined"
                return o
            continue
        o["new"] = c
        if e.ret == K(0):
            k = taken_by_other(r, s, e, olds)
            if k:
                o["why"] = "the new name is taken"
                return o
            if k is None:
                o["unsure"] = "the file of the new name is compared in a way that is not understood"
    return o


def name_paths():
    """(run, loop, state at the next turn, events) of every path one name takes."""
    p = runs.prog()
    w, a = runs.walk_run(), runs.args_run()
    for lp in entry_loops(w):
        for h, s, evs in iterations(lp):
            yield w, lp, s, evs, iteration_entry(w.eng, h, evs)
    for lp in loops(a):
        for h, s, evs in iterations(lp):
            if inline_mode(p, s) is False:
                yield a, lp, s, evs, None


def c42(rep):
    p = runs.prog()
    rep.rule("renamed", "a path on which a name was put through the sequence renames the file, or: it is a dry run; there is no "
                        "filtered name, it is the same or contains a slash; the file cannot be examined; the new name "
                        "belongs to another file or the file has more than one link")
    rep.rule("filtered", "the name of every given file and of every entry that is examined is put through the sequence if it is a "
                         "directory, a regular file, or --special is given")
    for r, lp, s, evs, es in name_paths():
        rep.note(name_paths=1)
        o = outcome(p, r, s, evs)
        if o["seq"]:
            where = site(o["seq"][-1])
            if o["rename"]:
                rep.ok("renamed", where, "renamed")
            elif o["dry"] is True:
                rep.ok("renamed", where, "dry run")
            elif o["why"]:
                rep.ok("renamed", where, o["why"])
            elif o["unsure"]:
                rep.unsure("renamed", where, o["unsure"])
            else:
                rep.bad("renamed", where, "the name was filtered, but nothing is renamed, and no permitted reason is known on the path; "
                        "last steps: %s" % ", ".join("%s:%s" % (e.name, e.loc()) for e in evs[-6:]))
            continue
        st = [e for e in evs if e.kind == "stat"]
        if es is not None:
            st = [e for e in st if entries_in(r.eng, e.strs.get(0)) & es]
        st = [e for e in st if e.x["sid"] and e.ret == K(0)]
        if not st:
            continue
        if p.fn("sequence_run_filters") is None:
            rep.unsure("filtered", site(st[0]), "no sequence_run_filters")
            continue
        ks = kinds(At(s), st[0].x["sid"])
        sp = option(p, At(s), "special")
        if ks is not None and not ks & {DIR, REG} and sp is False:
            rep.ok("filtered", site(st[0]), "special, without --special")
        elif is_dots(s.facts, last_part(view(None, s.facts), st[0].strs.get(0) or ())):
            rep.ok("filtered", site(st[0]), "protected")
        else:
            rep.bad("filtered", site(st[0]), "a file that was examined is not put through the sequence although it may be %s" % (
                "a directory or a regular file" if ks is None or ks & {DIR, REG} else "special with --special given"))
    for r, lp, s, evs, es in name_paths():
        if any(e.kind == "call" and e.name == "sequence_run_filters" for e in evs):
            rep.ok("filtered", "%s loop %s" % (lp.fn.name, lp.info.header), "filtered")


def flat(parts):
    out = []
    for q in parts:
        if q[0] == "lit":
            if not q[1]:
                continue
            if out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + q[1])
                continue
        out.append(q)
    return tuple(out)


def c43(rep):
    p = runs.prog()
    rep.rule("reported", "with -v every rename that succeeds, and with -n every rename that would be tried, is reported on standard output "
                         "once, as the old name, an arrow, the new name and a newline")
    rep.rule("nothing else", "nothing is reported as renamed that is not")
    rep.rule("quiet", "without -v and -n nothing is written to standard output while files are handled")
    quiet(rep, p)
    for r, lp, s, evs, es in name_paths():
        rep.note(name_paths=1)
        at = At(s)
        v = view(None, s.facts)
        verb, dry = option(p, at, "verbose"), option(p, at, "dry_run")
        outs = [e for e in evs if e.kind == "out" and e.x.get("stream") == "stdout"]
        text = flat(sum((tuple(e.x.get("parts") or (("unk", 0),)) for e in outs), ()))
        o = outcome(p, r, s, evs)
        where = site(outs[-1]) if outs else site(o["seq"][-1]) if o["seq"] else "%s loop %s" % (lp.fn.name, lp.info.header)
        done = [e for e in o["rename"] if e.ret == K(0)]
        tried = bool(o["rename"])
        would = bool(o["seq"]) and not tried and dry is True and not o["why"]
        if would and o["unsure"]:
            rep.unsure("reported", where, o["unsure"])
            continue
        if tried:
            old, new = o["text"]
        elif would:
            new = o.get("new")
            old = None
            for e in evs:
                if e.kind == "stat" and e.ret == K(0) and new is not None and not (
                        same(v, e.strs.get(0), new) is True):
                    old = e.strs.get(0)
        arrow = any(q[0] == "lit" and b" -> " in q[1] for q in text)
        if any(q[0] == "unk" for q in text):
            rep.unsure("reported", where, "the text written is not understood")
            continue
        if tried or would:
            if old is None or new is None:
                if would and new is None and arrow and not o["unsure"] and not any(
                        e.kind == "open" or e.name in ("access", "faccessat", "openat", "link")
                        for e in evs[evs.index(o["seq"][-1]):]):
                    rep.bad("reported", where, "%s is written although nobody looked whether the new name is taken" % show_parts(text))
                    continue
                rep.unsure("reported", where, "the names are not understood")
                continue
            want = flat(old + (("lit", b" -> "),) + new + (("lit", b"\n"),))
            need = would or done and verb is not False
            hit = ends_with(v, text, want)
            if hit and count_arrows(text) == count_arrows(want):
                rep.ok("reported", where, show_parts(want))
            elif arrow:
                rep.bad("reported", where, "%s is written for the rename of %s to %s" % (
                    show_parts(text), show_parts(old), show_parts(new)))
            elif need:
                rep.bad("reported", where, "%s to %s is not reported %s" % (
                    show_parts(old), show_parts(new), "in a dry run" if would else "although -v may be given"))
            else:
                rep.ok("reported", where, "not to be reported")
        elif arrow:
            rep.bad("nothing else", where, "%s is written although nothing is renamed (%s)" % (show_parts(text), o["why"]))
        else:
            rep.ok("nothing else", where, o["why"] or "")


def quiet(rep, p):
    for r in (runs.walk_run(), runs.args_run()):
        for n, e in r.events("out"):
            if e.x.get("stream") != "stdout" or option(p, e, "is_inline_mode") is True or option(p, e, "list_sequences") is True:
                continue
            on = option(p, e, "verbose") is True or option(p, e, "dry_run") is True
            t = show_parts(tuple(e.x.get("parts") or ()))
            rep.judge("quiet", site(e), on, t + ("" if on else " is written although neither -v nor -n is known to be given"))


def count_arrows(text):
    return sum(q[1].count(b" -> ") for q in text if q[0] == "lit")


def ends_with(v, text, want):
    """Whether text ends with want (both flat)."""
    if len(text) < len(want):
        return False
    t = text[len(text) - len(want):]
    if t[0][0] == "lit" and want[0][0] == "lit":
        if not t[0][1].endswith(want[0][1]):
            return False
        t, want = t[1:], want[1:]
    return same(v, t, want) is True
