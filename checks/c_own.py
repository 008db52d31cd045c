"""C13, C14, C19: opened files, results that may be null, and memory, function by function.

Every function is interpreted once, callees that are small in place and the others by a summary of what they do with
ownership: whether they may return nothing, something new, or one of their arguments; which arguments they release,
keep, or need."""
import c_inline
import libc
import llir
import runs
import program
from c_files import iterations, loops
from engine import Budget
from interp import Engine
from runs import Run
from terms import *  # noqa: F401,F403

GENERATED = ("yy",)
NONNULL = {"strerror", "__ctype_b_loc", "__ctype_tolower_loc", "__ctype_toupper_loc", "basename", "__xpg_basename",
           "__errno_location", "dirname"}
KEEPS = {"putenv", "setbuf", "setvbuf", "setlinebuf", "atexit", "tsearch", "hsearch"}
RAW_OPENS = {"open", "openat", "creat", "popen", "mkstemp", "dup", "dup2", "socket", "pipe", "tmpfile", "freopen"}


class Summary:
    """What a function does with its arguments and its result, over all its paths."""

    def __init__(self, fn):
        self.fn, self.run, self.why = fn, None, None
        self.null = self.fresh = self.handle = self.other = self.oom = False
        self.alias, self.frees, self.mayfree, self.keeps, self.needs = set(), set(), set(), set(), set()
        self.steps = 0
        self.opaque = ()

    def known(self):
        return self.run is not None


def pointee(st, v):
    return st.split(v)[0] if v.t else None


class Own:
    def __init__(self, p, only=None):
        self.p = p
        self.sums, self.busy = {}, set()

    def callees(self, f):
        out = []
        for b in f.blocks.values():
            for i in b.insts:
                if i.op == "call" and i.extra["callee"][0] == "glob":
                    g = self.p.func(f.module, i.extra["callee"][1])
                    if g is not None and g not in out:
                        out.append(g)
        return out

    def deep(self, f):
        seen, todo = [], [f]
        while todo:
            g = todo.pop()
            for c in self.callees(g):
                if c not in seen:
                    seen.append(c)
                    todo.append(c)
        return seen

    def of(self, f):
        s = self.sums.get(f.key)
        if s is None and f.key not in self.busy:
            self.busy.add(f.key)
            s = self.sums[f.key] = self.make(f)
            self.busy.discard(f.key)
        return s

    def engine(self, f, opaque):
        models = {}
        if f.key == self.inline().key:
            models.update({n: c_inline.m_line for n in c_inline.GETS})
            models.update({n: c_inline.m_byte for n in c_inline.GETC})
            models["ungetc"] = c_inline.m_unget
        for g in opaque:
            models["!" + g.name] = self.m_sum
        e = Engine(self.p, models=models, budget=600000, max_states=20000)
        e.merge_limit = 1 << 30
        e.enum_limit = 300
        return e

    def inline(self):
        return runs.inline_fn(self.p)

    def make(self, f):
        s = Summary(f)
        if f.name.startswith(GENERATED):
            s.why = "generated"
            return s
        deep = self.deep(f)
        cost = {}
        for g in deep:
            r = self.of(g)
            cost[g.key] = r.steps if r is not None and r.known() else None
        big = [g for g in deep if cost[g.key] is None or cost[g.key] > 900]
        more = [g for g in deep if g in big or cost[g.key] > 60]
        tries = [big] if len(big) == len(more) else [big, more]
        for opaque in tries:
            e = self.engine(f, opaque)
            if opaque is not tries[-1]:
                e.budget = 40000
            try:
                rs = e.run_root(f)
            except Budget as x:
                s.why = str(x)
                s.steps = None
                continue
            s.run, s.why, s.steps = Run(e, rs, f.name), None, e.steps
            s.opaque = tuple(sorted(g.name for g in opaque))
            self.loops(s)
            self.fill(s)
            break
        return s

    # ------------------------------------------------------------ who owns what round a loop
    def loops(self, s):
        """For every way into a turn of a loop: the objects the loop variables let go of in earlier turns, and the
        unknown values that stand for what an earlier turn allocated."""
        s.heads, s.loops = {}, [lp for lp in loops(s.run)]
        for lp in s.loops:
            owned = set()
            for v in lp.init:
                b0 = pointee(lp.pre, lp.init[v])
                if lp.init[v].t and lp.pre.heap.get(b0, ("",))[0] != "live":
                    continue
                own = {pointee(h, h.pv[v]) for h in lp.heads if v in h.pv and h.pv[v].t}
                own = {b for b in own if b is not None and b[0] == "leaf" and b[1] in ("phi", "any")}
                if own and all(self.owns(h, t, v, own) for h, t in lp.backs):
                    owned |= own
            for h in lp.heads:
                gone = set()
                for v, x in lp.init.items():
                    b = pointee(lp.pre, x)
                    if b in lp.pre.heap and pointee(h, h.pv.get(v, x)) != b:
                        gone.add(b)
                for k, (x, cls) in lp.pre.mem.items():
                    b = pointee(lp.pre, x)
                    if b in lp.pre.heap and (k not in h.mem or pointee(h, h.mem[k][0]) != b):
                        gone.add(b)
                mine = {b for b in owned if any(pointee(h, x) == b for x in h.pv.values())}
                s.heads[h.hnode.uid] = (lp, h, gone, mine)

    def owns(self, h, t, v, own):
        nx = t.phi_next.get(v)
        if nx is None:
            return False
        if not nx.t or t.isnull(nx) is True:
            return True
        b = pointee(t, nx)
        return t.heap.get(b, ("",))[0] == "live" or b in own and t.heap.get(b, ("live",))[0] == "live"

    def held(self, s, st):
        """What the path to a state allocated and has not released: heap objects and owned unknowns."""
        gone, mine = set(), set()
        n = st.ev
        while n is not None:
            x = s.heads.get(n.uid)
            if x is not None:
                gone |= x[2]
                mine |= x[3]
            n = n.prev[0] if n.prev else None
        live = {b for b, h in st.heap.items() if h[0] == "live" and b[0] == "obj"}
        return (live - gone) | {b for b in mine if st.heap.get(b, ("live",))[0] == "live"}

    def reach(self, st, roots, held):
        """The held objects that can still be reached from some values or from memory that outlives the path."""
        got = {b for b in roots if b is not None}
        ch = True
        while ch:
            ch = False
            for (b, o), (v, cls) in st.mem.items():
                t = pointee(st, v)
                if t is None or t in got:
                    continue
                if b in got or not (b in held or b in st.heap):
                    got.add(t)
                    ch = True
        return got & held

    def fill(self, s):
        f, e = s.fn, s.run.eng
        leaf = {}
        for k, (n, t) in enumerate(f.args):
            if t.kind == "ptr":
                leaf[("leaf", "arg", n, 64)] = k
        res = s.run.results
        freed = []
        for st, rv in res:
            fr = {leaf[b] for b, h in st.heap.items() if b in leaf and h[0] == "freed"}
            may = {leaf[b] for b, h in st.heap.items() if b in leaf and h[0] == "maybe-freed"}
            nul = {k for at, k in leaf.items() if st.isnull(A(at)) is True}
            freed.append((fr, nul))
            s.mayfree |= fr | may
            for (b, o), (v, cls) in st.mem.items():
                k = leaf.get(pointee(st, v))
                if k is not None and st.heap.get(b, ("",))[0] != "stack" and b not in leaf or \
                        k is not None and b in leaf and self.stored(s.run, b, k, leaf):
                    s.keeps.add(k)
            if f.ret.kind == "ptr":
                if not rv.t or st.isnull(rv) is True:
                    if any(x.kind == "alloc-fail" for x in st.events()):
                        s.oom = True
                    else:
                        s.null = True
                    continue
                b = pointee(st, rv)
                n = st.isnull(rv)
                if n is None:
                    s.null = True
                h = st.heap.get(b)
                if b in st.handles:
                    s.handle = True
                elif h is not None and h[0] == "live" or b in self.held(s, st):
                    s.fresh = True
                elif b in leaf:
                    s.alias.add(leaf[b])
                else:
                    s.other = True
        for k in leaf.values():
            if res and all(k in fr or k in nul for fr, nul in freed) and any(k in fr for fr, nul in freed):
                s.frees.add(k)
        for at, k in leaf.items():
            if res and all(st.isnull(A(at)) is False for st, rv in res) and \
                    any(n.event.kind == "maybe-null" and single(n.event.args[0]) == at for n, st in e.faults):
                s.needs.add(k)

    def stored(self, run, b, k, leaf):
        """Whether the path stored argument k itself in memory (rather than loading it from there)."""
        return True

    # ------------------------------------------------------------ a summarised callee
    def m_sum(self, eng, st, i, args, name):
        g = self.p.func(i.fn.module, name) or self.p.fn(name)
        s = self.of(g)
        if s is not None and s.known() and not libc.needs(eng, st, i, name, args, sorted(s.needs)):
            return []
        before = {k: pointee(st, a) for k, a in enumerate(args)}
        n0 = len(st.escaped)
        [(st, rv)] = eng.opaque_call(st, i, g, args)
        if s is None or not s.known():
            st.event("unknown-callee", name, args, None, i)
            return [(st, rv)]
        for k in sorted(s.mayfree):
            if k < len(args) and st.isnull(args[k]) is not True:
                if k in s.frees:
                    libc.release(eng, st, i, args[k], name)
                elif before.get(k) is not None:
                    st.heap[before[k]] = ("maybe-freed", i)
        if i.ty.kind != "ptr":
            return [(st, rv)]
        out = []
        kinds = [x for x in ("fresh", "handle", "other") if getattr(s, x)]
        for k in kinds:
            t = st.fork()
            if k == "other":
                v = rv
                if t.isnull(v) is None and not t.assume_cmp("ne", v, K(0), 64):
                    continue
            else:
                o = eng.obj(t, "%s:%s:%d" % (name, i.fn.name, i.line), A(eng.leaf("size", 64, name, lo=1)), "heap",
                            "ext", i)
                if k == "fresh":
                    t.heap[o] = ("live", i)
                    t.event("alloc", name, (A(o), K(0)), A(o), i)
                else:
                    t.handles[o] = ("open", i, name)
                    t.event("open", name, args, A(o), i, strs={}, epoch=t.fs, mem={})
                v = A(o)
            out.append((t, v))
        for k in sorted(s.alias):
            if k < len(args):
                t = st.fork()
                if t.isnull(args[k]) is not True:
                    out.append((t, args[k]))
        if s.oom:
            t = st.fork()
            t.event("alloc-fail", name, args, K(0), i)
            out.append((t, K(0)))
        if s.null or not out:
            t = st.fork()
            t.event("call-null", name, args, K(0), i)
            out.append((t, K(0)))
        return out


_own = {}


def site(i):
    return "%s:%s" % (i.fn.name, i.line) if i is not None else "?"


def why(st, since=None):
    out = []
    for e in st.events(since):
        if e.kind in ("alloc", "alloc-fail", "free", "open", "close", "call-null"):
            out.append("%s %s line %s%s" % (e.kind, e.name, e.inst.line if e.inst else "?",
                                           " fails" if e.kind == "open" and e.ret == K(0) else ""))
    return "; ".join(out[-12:]) or "no such call"


def own(var="detox_SOURCES"):
    if var not in _own:
        o = _own[var] = Own(runs.prog(var))
        for f in sorted(o.p.funcs.values(), key=lambda f: f.key):
            if f.blocks:
                o.of(f)
    return _own[var]


def functions(o):
    return sorted((s for s in o.sums.values() if not s.fn.name.startswith(GENERATED)), key=lambda s: s.fn.key)


def skipped(rep, o, rule, want=lambda s: True):
    """Functions whose paths were not followed."""
    for s in functions(o):
        if not s.known() and want(s):
            rep.unsure(rule, s.fn.name, "not followed: %s" % s.why)


def globals_closed(p, g):
    """Whether anything in the program closes what a global variable holds."""
    for f in p.funcs.values():
        defs = {}
        for b in f.blocks.values():
            for i in b.insts:
                if i.op == "load" and i.ops[0][0] == "glob" and i.ops[0][1] == g:
                    defs[i.res] = True
                if i.op == "call" and i.extra["callee"][0] == "glob" and i.extra["callee"][1] in \
                        ("fclose", "closedir", "pclose") and i.ops and i.ops[0][0] == "loc" and i.ops[0][1] in defs:
                    return f.name
    return None


def used_again(s, lp, h, b):
    """An event in some turn of the loop, started like h, that uses object b."""
    for h2, t in lp.backs:
        for e in t.events(since=h2.hnode):
            if e.kind in ("free", "close", "read", "write", "use-after-free", "use-after-close") or e.kind == "call" and \
                    not e.x.get("opaque"):
                if any(pointee(runs.view(e), a) == b for a in e.args if hasattr(a, "t")):
                    return e
    return None


def unguarded(h, t):
    """Whether the path round the loop learnt nothing about what the loop changes (so it can be taken again)."""
    ats = {at for x in h.pv.values() for at in atoms_of(x)}
    return not any(ats & atoms_of(A(c)) for c, v in t.pred[len(h.pred):]) and \
        not any(at in ats and t.dom[at] != h.dom.get(at) for at in t.dom)


def c13(rep):
    o = own()
    R = {k: rep.rule(k, v, k in ("closed", "sites")) for k, v in {
        "sites": "Every call that opens a file or directory is on a path that was followed.",
        "closed": "On every way out of the function that opened it (other than ending the program), a file or directory "
                  "is closed, or handed to the caller, which is then held to the same.",
        "turn": "What one turn of a loop opens is closed before the next turn.",
        "once": "Nothing is closed that was already closed on the path.",
        "after": "Nothing is used on a path after it was closed.",
    }.items()}
    p = o.p
    seen = set()
    n = 0
    for s in functions(o):
        if not s.known():
            continue
        n += 1
        f = s.fn
        for _, e in s.run.events("open"):
            if e.inst.fn is f and e.ret != K(0):
                seen.add((f.key, e.inst.line, e.inst))
        for nd, st in s.run.eng.faults:
            e = nd.event
            if e.kind == "double-close":
                rep.bad(R["once"], site(e.inst), "%s closes again what the path closed before: %s" % (
                    e.name, why(st)))
            elif e.kind == "use-after-close":
                rep.bad(R["after"], site(e.inst), "%s uses what the path closed before: %s" % (e.name, why(st)))
        for _, e in s.run.events("close"):
            if e.inst.fn is f:
                rep.ok(R["once"], site(e.inst), "open when it is closed, on every path")
        for _, e in s.run.events("call"):
            if e.x.get("handle") is not None and e.inst.fn is f:
                rep.ok(R["after"], site(e.inst), "not closed before")
        for st, rv in s.run.results:
            opened(rep, R, p, s, st, {pointee(st, rv)})
        for lp in s.loops:
            for h, t in lp.backs:
                for b, hd in t.handles.items():
                    where = site(hd[1])
                    if hd[0] == "open" and b not in h.handles:
                        nx = {pointee(t, v) for v in t.phi_next.values()}
                        if b in nx:
                            rep.unsure(R["turn"], where, "carried into the next turn")
                        elif any(pointee(t, v) == b and not local(t, c) for (c, _), (v, _x) in t.mem.items()):
                            rep.unsure(R["turn"], where, "kept in memory that outlives the turn")
                        else:
                            rep.bad(R["turn"], where, "opened in a turn of the loop of %s and still open when the next "
                                    "turn starts: %s" % (lp.fn.name, why(t, h.hnode)))
                    elif hd[0] == "closed" and b not in h.handles:
                        rep.ok(R["turn"], where, "closed within the turn")
                    elif hd[0] == "closed" and h.handles[b][0] == "open":
                        e = used_again(s, lp, h, b)
                        if e is not None and unguarded(h, t):
                            rep.bad(R["once" if e.kind == "close" else "after"], site(e.inst), "the loop of %s closes it "
                                    "in one turn and uses it in the next: %s" % (lp.fn.name, why(t, h.hnode)))
    for s in functions(o):
        for b in s.fn.blocks.values():
            for i in b.insts:
                if i.op != "call" or i.extra["callee"][0] != "glob" or p.func(s.fn.module, i.extra["callee"][1]):
                    continue
                nm = i.extra["callee"][1]
                if nm in ("fopen", "fopen64", "opendir", "fdopen", "fdopendir"):
                    if any(x[2] is i for x in seen):
                        rep.ok(R["sites"], site(i), "followed")
                    elif s.known():
                        rep.unsure(R["sites"], site(i), "no path to this call was followed")
                    else:
                        rep.unsure(R["sites"], site(i), "not followed: %s" % s.why)
                elif nm in RAW_OPENS:
                    rep.unsure(R["sites"], site(i), "%s is not tracked" % nm)
    rep.note(functions_followed=n, opens=len(seen))
    rep.assumptions.append("Ending the program (exit, or returning from main) closes everything.")


def local(st, b):
    return st.heap.get(b, ("",))[0] == "stack"


def opened(rep, R, p, s, st, roots):
    for b, hd in st.handles.items():
        where = site(hd[1])
        if hd[0] == "closed":
            rep.ok(R["closed"], where, "closed when %s returns" % s.fn.name)
            continue
        if s.fn.name == "main":
            continue
        if b in roots:
            rep.ok(R["closed"], where, "handed to the caller of %s" % s.fn.name)
            continue
        kept = [c for (c, _), (v, _x) in st.mem.items() if pointee(st, v) == b and not local(st, c) and
                st.heap.get(c, ("",))[0] != "freed"]
        gl = [c[1][1:] for c in kept if c[0] == "obj" and isinstance(c[1], str) and c[1].startswith("@")]
        by = [globals_closed(p, g.split(":")[-1]) for g in gl]
        if kept and (len(gl) < len(kept) or any(x is not None and x != s.fn.name for x in by)):
            rep.unsure(R["closed"], where, "still open when %s returns, but kept in memory (%s)" % (
                s.fn.name, ", ".join(gl) or "of the caller"))
        else:
            rep.bad(R["closed"], where, "still open when %s returns: %s" % (s.fn.name, why(st)))


def c14(rep):
    o = own()
    R = {k: rep.rule(k, v, k in ("object", "oom", "opens")) for k, v in {
        "object": "No path dereferences a pointer that is null there, or hands it to a function that needs an object.",
        "external": "The result of a library function that may fail is tested before it is used.",
        "opens": "After a failed open, search, lookup or allocation the path continues without using the null result.",
        "oom": "A failed allocation ends the program with a failure status, after a message on standard error.",
        "main": "The same holds with everything main has set up (environment, options, configuration) taken together.",
    }.items()}
    n = 0
    for s in functions(o):
        if not s.known():
            rep.unsure(R["object"], s.fn.name, "not followed: %s" % s.why)
            continue
        n += 1
        nulls(rep, R["object"], R["external"], s.run)
        f = s.fn
        kinds = {}
        for _, e in s.run.events("open", "alloc-fail", "call-null", "call"):
            if e.inst is not None and e.inst.fn is f and e.ret == K(0) and (e.kind != "call" or f.name != "main" and
                                                                          e.inst.ty.kind == "ptr"):
                kinds[(site(e.inst), e.name)] = True
        for (w, nm) in kinds:
            rep.ok(R["opens"], w, "%s fails: the null result is not used" % nm)
        rep.ok(R["object"], f.name, "%d paths" % len(s.run.results))
        for st, code in s.run.eng.exits:
            evs = st.events()
            k = max((k for k, e in enumerate(evs) if e.kind == "alloc-fail"), default=None)
            if k is None:
                continue
            w = site(evs[k].inst)
            msg = [e for e in evs[k:] if e.kind == "out" and e.x.get("stream") == "stderr"]
            v = None if code is None else st.facts.values(code, 300) if hasattr(code, "t") else {code}
            if v is not None and all(x & 255 == 0 for x in v):
                rep.bad(R["oom"], w, "the program ends with status 0 after a failed allocation")
            elif v is not None and any(x & 255 == 0 for x in v) or v is None:
                rep.unsure(R["oom"], w, "the status after a failed allocation is not known")
            elif not msg:
                rep.bad(R["oom"], w, "the program ends without a message on standard error after a failed allocation")
            else:
                rep.ok(R["oom"], w, "message, then exit(%s)" % sorted(v))
        for st, rv in s.run.results:
            x = [e for e in st.events() if e.kind == "alloc-fail"]
            if x:
                if rv == K(0) and f.ret.kind == "ptr" and handed_on(o, f):
                    rep.unsure(R["oom"], site(x[0].inst), "%s returns null after a failed allocation" % f.name)
                else:
                    rep.bad(R["oom"], site(x[0].inst), "the program carries on after a failed allocation: %s" % why(st))
        for lp in s.loops:
            for h, t in lp.backs:
                x = [e for e in t.events(since=h.hnode) if e.kind == "alloc-fail"]
                if x:
                    rep.bad(R["oom"], site(x[0].inst), "the program carries on after a failed allocation: %s" % (
                        why(t, h.hnode)))
    r = runs.files_run()
    nulls(rep, R["main"], R["external"], r)
    rep.ok(R["main"], "main", "%d events" % len(r.nodes))
    rep.note(functions_followed=n)
    rep.assumptions.append("Functions that need an object as argument are only called with one where the caller's own "
                           "paths show nothing else (each caller is analysed).")


def handed_on(o, f):
    """Whether some function of the program calls f (and so gets to see its null result)."""
    return any(f in o.callees(s.fn) for s in o.sums.values() if s.fn is not f)


def nulls(rep, r1, r2, run):
    e0 = run.eng
    for nd, st in e0.faults:
        e = nd.event
        if e.kind == "null":
            rep.bad(r1, site(e.inst), "%s %s with a null pointer: %s" % (
                "a" if e.name in ("load", "store") else "calls", e.name, why(st)))
        elif e.kind == "wild" and not e.args[0].t and 0 <= e.args[0].c < 4096:
            rep.bad(r1, site(e.inst), "a %s through a null pointer and an offset of %d: %s" % (
                e.name, e.args[0].c, why(st)))
        elif e.kind == "maybe-null":
            at = pointee(st, e.args[0]) or single(e.args[0])
            if at is None or at[0] != "leaf":
                continue
            if at[1] == "ret" and run.eng.prog.fn(at[2]) is None:
                if at[2] in NONNULL:
                    rep.ok(r2, site(e.inst), "%s always returns an object" % at[2])
                else:
                    rep.bad(r2, site(e.inst), "%s uses what %s returned without a test for null" % (e.name, at[2]))
            elif at in getattr(e0, "nullable", ()):
                rep.bad(r1, site(e.inst), "%s with a pointer that is null on some path to here" % e.name)


def c19(rep):
    o = own()
    R = {k: rep.rule(k, v, k in ("returns", "turn", "once")) for k, v in {
        "returns": "When a function that works on names returns, everything it allocated is released, or is its result, "
                   "or is reachable from memory that outlives it.",
        "turn": "What one turn of a loop allocates is released, or carried on, by the time the next turn starts; what "
                "is no longer carried on has been released.",
        "once": "Nothing is released that was already released on the path, or that was not allocated.",
        "after": "Nothing is used on a path after it was released.",
    }.items()}
    p = o.p
    per = set()
    todo = [runs.walk_fn(p), runs.inline_fn(p)] + [p.fn(x) for x in ("parse_file", "sequence_run_filters") if p.fn(x)]
    while todo:
        f = todo.pop()
        if f.key in per or f.name.startswith(GENERATED):
            continue
        per.add(f.key)
        todo += o.callees(f)
    main = p.need("main")
    n = 0
    for key in sorted(per | {main.key}):
        s = o.of(p.funcs[key])
        f = s.fn
        if not s.known():
            rep.unsure(R["returns"], f.name, "not followed: %s" % s.why)
            continue
        n += 1
        for nd, st in s.run.eng.faults:
            e = nd.event
            if e.kind in ("double-free", "use-after-free"):
                r = R["once" if e.kind == "double-free" else "after"]
                if e.x.get("status") == "freed":
                    rep.bad(r, site(e.inst), "%s: released before on the path: %s" % (e.name, why(st)))
                else:
                    rep.unsure(r, site(e.inst), "%s: released before on some path" % e.name)
            elif e.kind == "bad-free":
                rep.bad(R["once"], site(e.inst), "%s of what was not allocated" % e.name)
        for _, e in s.run.events("free"):
            if e.inst.fn is f:
                rep.ok(R["once"], site(e.inst), "allocated and not released before, on every path")
        if f is not main:
            for st, rv in s.run.results:
                b = pointee(st, rv)
                if st.heap.get(b, ("",))[0] == "freed":
                    rep.bad(R["after"], f.name, "%s returns what it released: %s" % (f.name, why(st)))
                left = o.held(s, st)
                got = o.reach(st, {pointee(st, rv)}, left)
                unknown = [e for e in st.events() if e.kind == "unknown-callee"]
                for b in sorted(left - got, key=repr):
                    lost(rep, R["returns"], o, s, st, b, unknown, "when %s returns" % f.name, None)
                rep.ok(R["returns"], f.name, "released or handed on: %s" % why(st))
        for lp in s.loops:
            for h, t in lp.backs:
                turn(rep, R, o, s, lp, h, t)
    rep.note(functions_followed=n)


def made(s, b):
    """Where an object came from."""
    d = s.run.eng.objs.get(b[1]) if b[0] == "obj" else None
    return site(d["inst"]) if d and d.get("inst") is not None else show(A(b))


def lost(rep, r, o, s, st, b, unknown, when, since):
    evs = st.events(since)
    if any(e.kind == "store" and pointee(runs.view(e), e.args[1]) == b for e in evs):
        rep.unsure(r, made(s, b), "stored in memory, not released %s" % when)
        return
    for e in evs:
        if e.kind == "call" and any(pointee(runs.view(e), a) == b for a in e.args if hasattr(a, "t")):
            g = s.run.eng.prog.fn(e.name)
            if e.name in KEEPS or g is None and e.name == "<indirect>":
                return
            if g is not None:
                k = o.of(g)
                if k is None or not k.known() or any(j in k.keeps for j, a in enumerate(e.args)
                                                     if pointee(runs.view(e), a) == b):
                    return
    if unknown:
        rep.unsure(r, made(s, b), "not released %s, but a callee is unknown" % when)
    else:
        rep.bad(r, made(s, b), "not released %s: %s" % (when, why(st, since)))


def turn(rep, R, o, s, lp, h, t):
    before, after = o.held(s, h), o.held(s, t)
    live = s.run.eng.live_in(lp.fn)[lp.info.header]
    roots = {pointee(t, v) for v in t.phi_next.values()}
    got = o.reach(t, roots | {pointee(t, v) for k, v in t.env.items() if k in live and hasattr(v, "t")}, after)
    for b in sorted(after - before - got, key=repr):
        lost(rep, R["turn"], o, s, t, b, [e for e in t.events(h.hnode) if e.kind == "unknown-callee"],
             "in the turn of the loop of %s that allocated it" % lp.fn.name, h.hnode)
    # what the loop variables held and no longer hold
    for v, x in h.pv.items():
        b = pointee(h, x)
        if b not in before or b in roots or b in got:
            continue
        if b not in after:
            rep.ok(R["turn"], "%s:%s" % (lp.fn.name, v), "released before it is replaced")
        elif b[0] == "leaf":
            lost(rep, R["turn"], o, s, t, b, [], "when the loop of %s replaces it" % lp.fn.name, h.hnode)
    for b in after - before:
        rep.ok(R["turn"], made(s, b), "carried on")
    for b, hd in t.heap.items():
        if hd[0] == "freed" and b not in h.heap and b[0] == "obj":
            rep.ok(R["turn"], made(s, b), "released within the turn")
        elif hd[0] == "freed" and h.heap.get(b, ("",))[0] == "live":
            e = used_again(s, lp, h, b)
            still = any(pointee(h, x) == b for x in h.pv.values()) and b not in roots
            if e is None or still:
                continue
            if unguarded(h, t):
                rep.bad(R["once" if e.kind == "free" else "after"], site(e.inst), "the loop of %s releases it in one "
                        "turn and uses it in the next: %s" % (lp.fn.name, why(t, h.hnode)))
            else:
                rep.unsure(R["after"], site(e.inst), "released in one turn, used in another")
    for v, x in t.phi_next.items():
        b = pointee(t, x)
        if b is not None and t.heap.get(b, ("",))[0] == "freed":
            hb = pointee(h, h.pv[v]) if v in h.pv else None
            for h2 in lp.heads:
                b2 = pointee(h2, h2.pv[v]) if v in h2.pv and h2.pv[v].t else None
                if b2 is not None and b2[0] == "leaf":
                    e = used_again(s, lp, h2, b2)
                    if e is not None:
                        rep.bad(R["after"], site(e.inst), "a turn of the loop of %s releases it and the next turn uses "
                                "it: %s" % (lp.fn.name, why(t, h.hnode)))
