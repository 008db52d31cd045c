"""The abstract runs the checks query, and queries over their event graphs."""
import libc
import program
from engine import Budget, State
from interp import Engine
from terms import *  # noqa: F401,F403

_prog = {}


def prog(var="detox_SOURCES"):
    if var not in _prog:
        _prog[var] = program.load(var)
    return _prog[var]


class Run:
    """One interpretation of a root, with its event graph."""

    def __init__(self, eng, results, root):
        self.eng, self.results, self.root = eng, results, root
        self.nodes = self._collect()

    def _collect(self):
        todo = [s.ev for s, _ in self.results] + [x if not hasattr(x, "ev") else x.ev for x in self._exits()]
        seen, out = set(), []
        loops = set()
        while todo:
            n = todo.pop()
            if n is None or n.uid in seen:
                continue
            seen.add(n.uid)
            out.append(n)
            todo += list(n.prev)
            e = n.event
            if e is not None and e.kind == "loop":
                lp = e.x["loop"]
                if id(lp) not in loops:
                    loops.add(id(lp))
                    for h, s in lp.backs:
                        todo.append(s.ev)
        out.sort(key=lambda n: n.uid)
        self.loops = loops
        return out

    def _exits(self):
        return [x[0] if isinstance(x, tuple) else x for x in self.eng.exits]

    def events(self, *kinds):
        for n in self.nodes:
            if n.event is not None and (not kinds or n.event.kind in kinds):
                yield n, n.event

    def before(self, node):
        """Nodes strictly before a node on some path (within this history)."""
        seen, todo, out = set(), list(node.prev), []
        while todo:
            n = todo.pop()
            if n.uid in seen:
                continue
            seen.add(n.uid)
            out.append(n)
            todo += list(n.prev)
        return out

    def on_all_paths(self, node, pred, stop=None):
        """Whether every backward path from node meets an event with pred before one with stop / the start."""
        memo = {}

        def go(start):
            todo = [start]
            seen = set()
            while todo:
                n = todo.pop()
                if n.uid in seen:
                    continue
                seen.add(n.uid)
                if n.event is not None:
                    if pred(n.event):
                        continue
                    if stop is not None and stop(n.event):
                        return n
                if not n.prev:
                    return n
                todo += list(n.prev)
            return None
        bad = None
        for p in node.prev:
            bad = go(p)
            if bad is not None:
                return bad
        if not node.prev:
            return node
        return None


def reaches(p, fn, names, seen=None):
    """Whether fn transitively calls one of the external names (mode-dependent opens judged by constants)."""
    eng = Engine(p)
    seen = set() if seen is None else seen
    todo = [fn]
    while todo:
        f = todo.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        for b in f.blocks.values():
            for i in b.insts:
                if i.op != "call":
                    continue
                c = i.extra["callee"]
                if c[0] != "glob":
                    continue
                g = p.func(f.module, c[1])
                if g is not None:
                    todo.append(g)
                elif c[1] in names and not eng.reads_only(f, i):
                    return True
    return False


SLOW = ("yyparse", "spoof_config_file", "parse_table", "sequence_review", "dump_config_file")
SETUP = {"config_file_load", "parse_options_getopt", "sequence_choose_default", "wrapped_strdup", "wrapped_malloc"}


def opaque_ok(p, names, forbidden):
    """Of the names, those that exist and do none of the forbidden calls themselves (the others are interpreted)."""
    out = []
    for n in names:
        f = p.fn(n)
        if f is not None and not reaches(p, f, forbidden):
            out.append(n)
    return out


_runs = {}


def memo(f):
    def g(*a):
        k = (f.__name__,) + a
        if k not in _runs:
            _runs[k] = f(*a)
        return _runs[k]
    g.__name__ = f.__name__
    return g


@memo
def null_to_null():
    """Whether running a sequence on no name at all yields no name (summary used for the filters' black box)."""
    p = prog()
    f = p.fn("sequence_run_filters")
    if f is None or len(f.args) != 2:
        return False
    e = Engine(p, opaque=["filter_run"], budget=200000)
    at = e.arg_leaf(*f.args[0])
    rs = e.run_root(f, args=[A(at), K(0)])
    return bool(rs) and all(rv == K(0) for _, rv in rs)


def m_filters(eng, st, i, args, name):
    """sequence_run_filters as a black box: nothing for nothing, anything otherwise."""
    g = eng.prog.fn(name)
    out = []
    n = st.isnull(args[1]) if len(args) == 2 and null_to_null() else False
    if n is not False:
        s2 = st.fork() if n is None else st
        if n is True or s2.assume_cmp("eq", args[1], K(0), 64):
            s2.event("call", name, args, K(0), i, strs=libc.contents(eng, s2, args), opaque=True, epoch=st.fs)
            out.append((s2, K(0)))
    if n is not True and (n is False or st.assume_cmp("ne", args[1], K(0), 64)):
        out += eng.opaque_call(st, i, g, args)
    return out


DENY = libc.FS_MUTATORS | {"opendir", "lstat"}


def _files_engine(p, **kw):
    op = opaque_ok(p, SLOW, DENY) + opaque_ok(p, ("parse_inline",), DENY - {"fopen"})
    models = {}
    if opaque_ok(p, ("sequence_run_filters",), DENY):
        models["!sequence_run_filters"] = m_filters
    return Engine(p, opaque=op, models=models, **kw)


@memo
def files_run(record=()):
    """main, with the filters, the configuration text and the inline reader as black boxes."""
    p = prog()
    e = _files_engine(p, from_start=True, budget=3000000, record=record)
    e.hard_merge, e.block_join = SETUP, True
    r = e.run_root(p.need("main"), nonnull=("argv",))
    return Run(e, r, "main")


def containing(p, name):
    """Functions with a direct call of an external function."""
    out = []
    for f in p.funcs.values():
        for b in f.blocks.values():
            for i in b.insts:
                if i.op == "call" and i.extra["callee"] == ("glob", name) and f not in out:
                    out.append(f)
    return out


def walk_fn(p):
    f = p.fn("parse_dir")
    if f is None:
        c = containing(p, "opendir")
        if len(c) != 1:
            raise program.AnalysisBroken("no function that walks a directory (opendir) was found")
        f = c[0]
    return f


@memo
def walk_run():
    """The directory walker on any directory and options, every path kept apart."""
    p = prog()
    e = _files_engine(p, budget=3000000)
    e.merge_limit = 1 << 30
    f = walk_fn(p)
    r = e.run_root(f, nonnull=tuple(n for n, _ in f.args))
    return Run(e, r, f.name)


OPTS = ("parse_options_getopt", "config_file_load", "sequence_choose_default")


@memo
def args_run():
    """main from the point where everything is set up: the loop over the given files, every path kept apart; the
    directory walker is a black box here (see walk_run)."""
    p = prog()
    e = _files_engine(p, budget=3000000)
    for n in OPTS:
        if p.fn(n) is not None:
            e.opaque.add(n)
    e.opaque.add(walk_fn(p).name)
    e.merge_limit = 1 << 30
    r = e.run_root(p.need("main"), nonnull=("argv",))
    return Run(e, r, "main")


# ---------------------------------------------------------------- queries on events

def view(e, facts=None):
    """A state that knows what was known at an event (for content arithmetic)."""
    f = facts or e.facts
    s = State(f.eng)
    s.dom, s.iv, s.lin, s.ne, s.pred, s.noc = f.dom, f.iv, f.lin, f.ne, f.pred, f.noc
    return s


def option(p, e, field, struct="options_t"):
    """True/False/None: whether the option's field is known to be non-zero / zero at an event; "absent" if the path
    never looked at it."""
    off = p.offset(struct, field)
    mem = e.x.get("mem") or {}
    vals = [v for (b, o), (v, cls) in mem.items() if cls == ("f", struct, off)]
    f = e.facts
    if not vals:
        for at in list(f.dom) + list(f.iv):
            if at[0] == "leaf" and at[1] == "mem" and at[4][2] == ("f", struct, off):
                vals.append(A(at))
    if not vals:
        return "absent"
    rs = set()
    for v in vals:
        r = f.decide("ne", v, K(0), 32)
        rs.add(r)
    return rs.pop() if len(rs) == 1 else None


def kinds(e, sid, facts=None):
    """File kinds (S_IFMT values) a stat result may have at an event."""
    at = ("leaf", "stat", sid, "st_mode", 32)
    d = (facts or e.facts).domof(at)
    return None if d is None else {m & 0o170000 for m in d}


DIR, REG, LNK = 0o040000, 0o100000, 0o120000


@memo
def inline_run():
    """main in full, with the file and directory handling as black boxes and the inline reader interpreted."""
    p = prog()
    op = opaque_ok(p, SLOW, DENY) + [n for n in ("parse_file", "parse_dir") if p.fn(n) is not None]
    models = {}
    if opaque_ok(p, ("sequence_run_filters",), DENY):
        models["!sequence_run_filters"] = m_filters
    e = Engine(p, opaque=op, models=models, from_start=True, budget=3000000)
    e.hard_merge, e.block_join = SETUP, True
    r = e.run_root(p.need("main"), nonnull=("argv",))
    return Run(e, r, "main")


def inline_fn(p):
    f = p.fn("parse_inline")
    if f is None:
        raise program.AnalysisBroken("no function parse_inline was found")
    return f


@memo
def lines_run():
    """The inline reader on any input, every path kept apart."""
    p = prog()
    models = {}
    if opaque_ok(p, ("sequence_run_filters",), DENY):
        models["!sequence_run_filters"] = m_filters
    e = Engine(p, models=models, budget=3000000)
    e.merge_limit = 1 << 30
    f = inline_fn(p)
    r = e.run_root(f, nonnull=tuple(n for n, _ in f.args if n == "options"))
    return Run(e, r, f.name)
