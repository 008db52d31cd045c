"""C44: no loop goes round without end.

For every loop, what decides whether it goes on is computed by slicing from its branches: the loop variables, the memory
read and the calls made on the way.  Every turn of the loop (every path of the fixpoint from the header back to it) must
change some of that, or consume input that runs out; a turn that leaves all of it as it found it is taken again for ever."""
import c_own
import runs
import transduce
from c_files import loops
from interp import Engine  # noqa: F401
from terms import *  # noqa: F401,F403

# what runs out, and the result that says so (it says so again when asked again)
ENDS = {"fgets": 0, "fgets_unlocked": 0, "readdir": 0, "readdir64": 0, "strtok": 0, "strtok_r": 0, "strsep": 0,
        "fgetc": -1, "getc": -1, "getchar": -1, "getc_unlocked": -1, "getline": -1, "getopt": -1, "getopt_long": -1,
        "getopt_long_only": -1, "fread": 0}
READS = set(ENDS) | {"read", "getdents", "recv", "pread"}
PURE = {"strlen", "strnlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "strchr", "strrchr", "strstr",
        "strspn", "strcspn", "strpbrk", "memchr", "strchrnul", "isalnum", "isalpha", "isdigit", "isxdigit", "isspace",
        "isupper", "islower", "isprint", "iscntrl", "ispunct", "tolower", "toupper", "__ctype_b_loc", "abs",
        "__ctype_tolower_loc", "__ctype_toupper_loc", "strtol", "strtoul", "atoi", "basename", "__xpg_basename"}


class Control:
    """What the branches of a loop depend on."""

    def __init__(self, p, eng, fn, L):
        defs = eng.defs(fn)
        self.phis, self.loads, self.ext, self.ours = set(), [], set(), []
        self.direct = set()         # phis compared directly, not only through what they point at
        seen, todo = set(), []
        for b in L.blocks:
            t = fn.blocks[b].insts[-1]
            if t.op in ("br", "switch"):
                todo += [op for op in t.ops if op[0] == "loc"]
        while todo:
            op = todo.pop()
            if op[0] != "loc" or op[1] in seen:
                continue
            seen.add(op[1])
            d = defs.get(op[1])
            if d is None or d.block.name not in L.blocks:
                continue
            if d.op == "phi":
                if d.block.name == L.header:
                    self.phis.add(op[1])
                todo += [x for x, _ in d.extra["inc"]]
                # which value arrives depends on the branches, which are in the slice already
                continue
            if d.op == "load":
                self.loads.append(d)
            elif d.op == "call":
                c = d.extra["callee"]
                g = p.func(fn.module, c[1]) if c[0] == "glob" else None
                if g is not None and g.blocks:
                    self.ours.append(d)
                elif c[0] != "glob":
                    self.ext.add("?")
                elif not c[1].startswith("llvm."):
                    self.ext.add(c[1])
            todo += list(d.ops)
        for b in L.blocks:
            for i in fn.blocks[b].insts:
                if i.op == "icmp":
                    for op in i.ops:
                        self.compared(defs, L, op)
        self.errno = "__errno_location" in self.ext
        # what they read of memory, in the functions of the program they call too
        self.classes = None if "?" in self.ext else set()
        for d in self.loads:
            self.read(p, eng, fn, d)
        done, todo = set(), [p.func(fn.module, d.extra["callee"][1]) for d in self.ours]
        while todo:
            g = todo.pop()
            if g.key in done:
                continue
            done.add(g.key)
            for b in g.blocks.values():
                for i in b.insts:
                    if i.op == "load":
                        self.read(p, eng, g, i)
                    elif i.op == "call":
                        c = i.extra["callee"]
                        x = p.func(g.module, c[1]) if c[0] == "glob" else None
                        if x is not None and x.blocks:
                            todo.append(x)
                        elif c[0] != "glob":
                            self.classes = None
                        elif c[1] in PURE or not c[1].startswith("llvm."):
                            self.ext.add(c[1])

    def compared(self, defs, L, op):
        todo, seen = [op], set()
        while todo:
            op = todo.pop()
            if op[0] != "loc" or op[1] in seen:
                continue
            seen.add(op[1])
            d = defs.get(op[1])
            if d is None or d.block.name not in L.blocks or d.op in ("load", "call"):
                continue
            if d.op == "phi":
                if d.block.name == L.header:
                    self.direct.add(op[1])
                    continue
                todo += [x for x, _ in d.extra["inc"]]
            else:
                todo += list(d.ops)

    def read(self, p, eng, fn, d):
        c = eng.op_class(fn, d.ops[0], d.ty)
        if self.classes is not None:
            self.classes.add(c)


def root(defs, op):
    for _ in range(40):
        if op[0] == "gep":
            op = op[2]
        elif op[0] == "loc" and op[1] in defs and defs[op[1]].op in ("getelementptr", "bitcast"):
            op = defs[op[1]].ops[0]
        else:
            break
    return op


def cached(k, v):
    """A cell that only remembers what was read from unknown memory."""
    at = single(v)
    return at is not None and at[0] == "leaf" and at[1] in ("mem", "mem8") and at[2] == k[0] and at[3] == k[1]


def moved(x):
    """Atoms of a value that need not be the same in the next turn."""
    return {at for at in atoms_of(x) if at[0] == "leaf" and at[1] not in ("arg", "argv") or at[0] not in ("leaf", "obj")}


class Turn:
    def __init__(self, p, eng, lp, h, t, ctl):
        self.p, self.eng, self.lp, self.h, self.t, self.ctl = p, eng, lp, h, t, ctl
        self.events = t.events(since=h.hnode)

    def consumed(self):
        """Pieces of input the turn certainly got hold of, less what it gave back; and the calls that may have been
        told that there is no more."""
        n, ended, maybe = 0, [], []
        for e in self.events:
            if e.kind not in ("call", "option"):
                continue
            if e.name == "ungetc":
                n -= 1
            if e.x.get("opaque"):
                g = self.p.func(e.inst.fn.module, e.name) or self.p.fn(e.name)
                if g is None or runs.reaches(self.p, g, READS):
                    n += 1
                continue
            if e.name not in ENDS:
                continue
            if e.name.startswith("getopt") and e.x.get("unknown"):
                maybe.append(e)
                continue
            end = K(ENDS[e.name])
            if e.name.startswith("fgets") and self.t.facts.upper(e.args[1]) <= 1:
                ended.append(e)
                continue
            r = self.t.facts.decide("eq", e.ret, end, 32 if ENDS[e.name] else 64)
            if r is True:
                ended.append(e)
            elif r is False:
                n += 1
            else:
                maybe.append(e)
        return n, ended, maybe

    def changes(self):
        """What the turn changed of what the loop depends on: (what, None) for a change, ("=", (head, value)) where
        the loop variable takes a value that it may have had before."""
        out, again = [], []
        for r in sorted(self.ctl.phis):
            a, b = self.h.pv.get(r), self.t.phi_next.get(r)
            if a is None or b is None:
                out.append(r)
            elif a != b:
                again.append((r, a, b))
        h, t, cs = self.h, self.t, self.ctl.classes
        for k in set(h.mem) | set(t.mem):
            if k[0] == ("obj", "errno"):
                continue
            x, y = h.mem.get(k), t.mem.get(k)
            if x == y or x is None and cached(k, y[0]) or y is None and cached(k, x[0]):
                continue
            if cs is not None and (y or x)[1] not in cs:
                continue
            if x is not None and y is not None:
                again.append((k, x[0], y[0]))
            else:
                out.append("memory %s" % (k,))
        if h.cver != t.cver and (cs is None or any(h.cver.get(c) != t.cver.get(c) for c in cs)):
            out.append("memory a call may change: %s" % [c for c in (cs or h.cver) if h.cver.get(c) != t.cver.get(c)])
        if cs is None or ("t", "i8") in cs or self.ctl.ext & PURE:
            near = self.bases()
            for b in set(t.log) | set(t.bver) | set(h.log) | set(h.bver):
                if (t.log.get(b) != h.log.get(b) or t.bver.get(b) != h.bver.get(b)) and self.looked_at(b, near) and \
                        not self.written_again(b):
                    out.append("bytes of %s" % (b,))
        if h.fs != t.fs and (self.ctl.ext - PURE - set(ENDS)):
            out.append("the file system")
        return out, again

    def unsteady(self):
        """Atoms that need not be the same when the turn is taken again."""
        if not hasattr(self, "_unsteady"):
            u = set()
            for v in transduce.variables(self.lp):
                try:
                    a, b = v.head(self.h), v.next(self.t)
                except KeyError:
                    continue
                if a != b:
                    u |= atoms_of(a)
            for e in self.events:
                if e.ret is not None and e.kind in ("call", "fs", "open", "alloc") and e.name not in PURE:
                    u |= atoms_of(e.ret)
            self._unsteady = u
        return self._unsteady

    def written_again(self, b):
        """Whether taking the turn again would only write the same bytes to the same places once more."""
        h, t = self.h, self.t
        if h.bver.get(b) != t.bver.get(b) or h.cver != t.cver:
            return False
        x, y = h.log.get(b, ()), t.log.get(b, ())
        if y[:len(x)] != x:
            return False
        # what the turn found out about the old bytes need not be so for the new ones
        learnt = [at for at, d in t.dom.items() if h.dom.get(at) != d] + list(t.pred[len(h.pred):]) + \
            [at for at, d in t.iv.items() if h.iv.get(at) != d] + list(set(t.ne) - set(h.ne)) + \
            [f for f in t.lin if f not in h.lin] + list(set(t.noc) - set(h.noc))
        if any(b in deep_atoms(at) | {at} for at in learnt):
            return False
        return not any(deep_atoms(e) & self.unsteady() for e in y[len(x):])

    def looked_at(self, b, near):
        if near is not None and b in near:
            return True
        if near is not None and not self.loaded:
            return False
        # a callee may look at what it is given, and at what can be found in memory
        return not (b[0] == "obj" and b not in self.h.escaped and b not in self.t.escaped and
                    not str(b[1]).startswith("@") and
                    not any(v[0].t and self.t.split(v[0])[0] == b for v in self.t.mem.values())) or near is None

    def bases(self):
        """The objects whose bytes the loop's branches look at, or None if that cannot be told."""
        out = set()
        defs = self.eng.defs(self.lp.fn)
        ops = [root(defs, d.ops[0]) for d in self.ctl.loads if d.ty.kind == "int" and d.ty.bits == 8]
        hard = set(ops)
        self.loaded = bool(self.ctl.ours)
        for b in self.lp.info.blocks:
            for i in self.lp.fn.blocks[b].insts:
                if i.op == "call" and (i in self.ctl.ours or i.extra["callee"][0] == "glob" and
                                       i.extra["callee"][1] in self.ctl.ext & PURE):
                    ops += [root(defs, o) for o in i.ops]
        todo, seen = ops, set()
        while todo:
            o = todo.pop()
            if o[0] != "loc":
                if o[0] not in ("int", "null", "undef"):
                    g = self.eng._root_global(self.lp.fn, o)
                    if g is not None:
                        out.add(("obj", "@" + g))
                continue
            if o[1] in seen:
                continue
            seen.add(o[1])
            d = defs.get(o[1])
            if o[1] in self.h.pv:
                v = self.h.pv[o[1]]
            elif o[1] in self.h.env:
                v = self.h.env[o[1]]
            elif d is not None and d.op in ("phi", "select"):
                todo += [root(defs, x) for x in ([y for y, _ in d.extra["inc"]] if d.op == "phi" else d.ops[1:])]
                continue
            elif d is not None and d.op not in ("load", "call") and o not in hard:
                continue                # a number
            elif o[1] in self.t.env:
                v = self.t.env[o[1]]
            elif d is not None and d.op in ("load", "call"):
                self.loaded = True      # something that can be found in memory
                continue
            else:
                return None
            if v is None or not v.t:
                continue
            b = self.h.split(v)[0]
            if b is None and o in hard:
                return None
            out.add(b)
        return out - {None}

    def verdict(self):
        """(True, what changes), (False, why nothing does) or (None, why it cannot be told)."""
        n, ended, maybe = self.consumed()
        if n > 0:
            return True, "reads on"
        out, again = self.changes()
        narrow = None
        for what, a, b in again:
            if isinstance(what, str) and self.apart(a, b):
                if self.wraps(what, a, b):
                    narrow = what
                else:
                    return True, "moves %s on" % what
        if narrow is not None and not [x for x in again if x[0] != narrow and isinstance(x[0], str)]:
            return False, "%s is a number of %d bits that is compared with more than it can hold, and starts again" % (
                narrow, self.width(narrow))
        if out:
            return True, "changes %s" % out[0]
        t = self.t
        round_ = []
        foreign = self.ctl.ext - PURE - set(ENDS) - {"__errno_location", "feof", "ungetc", "exit", "printf", "fprintf",
                                                     "puts", "putchar", "fputs", "fputc", "free", "malloc", "calloc",
                                                     "realloc", "strdup"}
        s = t.fork()
        for e in maybe:
            if e.x.get("unknown") or not s.assume_cmp("eq", e.ret, K(ENDS[e.name]), 32 if ENDS[e.name] else 64):
                return True, "reads on"
        for what, a, b in again:
            v = b
            at = single(b)
            for e in maybe:
                if e.ret is not None and e.ret == b:
                    v = K(ENDS[e.name])
            if v.t and (self.stepped(a, v) or moved(v)):
                if self.apart(a, v):
                    return True, "moves %s on" % (what,)
                if isinstance(what, str) and cyclic(v) and what not in self.ctl.direct:
                    round_.append(what)
                    continue
                if at is not None and moved(v):
                    return True, "gives %s another value" % (what,)
                return None, "whether %s is changed" % (what,)
            if not s.assume_cmp("eq", a, v, self.width(what)):
                return True, "only once: %s is different after it" % (what,)
        if foreign and any(e.kind in ("call", "fs") and e.name in foreign for e in self.events):
            return None, "goes on until %s says otherwise" % ", ".join(sorted(foreign))
        if self.ctl.errno and any(e.kind in ("call", "fs", "open") for e in self.events):
            return None, "goes on while errno is what it is"
        if "ferror" in self.ctl.ext:
            return None, "goes on until ferror says otherwise"
        why = "; ".join("%s line %s %s" % (e.name, e.inst.line, "has no more" if e in ended or e in maybe else "")
                        for e in self.events if e.kind == "call" and e.inst is not None)[:300]
        if round_:
            why = "%s only goes round in a circle, and nothing asks whether it is back" % round_[0]
        return False, why

    def wraps(self, what, a, b):
        """Whether a narrow counter can be at its end in this turn."""
        w, d = self.width(what), sub(b, a)
        if w not in (8, 16) or d.t or what not in self.ctl.direct or abs(d.c) != 1:
            return False
        signed = any(i.op == "sext" and i.ops[0] == ("loc", what) for k in self.lp.info.blocks
                     for i in self.lp.fn.blocks[k].insts)
        top = ((1 << (w - 1)) - 1 if signed else (1 << w) - 1) if d.c > 0 else (-(1 << (w - 1)) if signed else 0)
        return bool(self.t.fork().assume_cmp("eq", a, K(top), w))

    def apart(self, a, b):
        f, d = self.t.facts, sub(b, a)
        return self.stepped(a, b) and (f.ne0(d) or f.lower(d) > 0 or f.upper(d) < 0)

    def stepped(self, a, b):
        return bool(a.t) and self.t.split(a)[0] is not None and self.t.split(a)[0] == self.t.split(b)[0] or \
            bool(set(x for x, _ in a.t) & set(x for x, _ in b.t))

    def width(self, what):
        d = self.eng.defs(self.lp.fn).get(what) if isinstance(what, str) else None
        return d.ty.bits if d is not None and d.ty.kind == "int" else 64


def ways_out(s):
    """Loops that some path leaves (or in which the program ends)."""
    out = set()
    inside = set()
    for _, e in s.run.events("loop-exit"):
        out.add(id(e.x["loop"]))
    for x in s.run.eng.exits:
        st = x[0] if isinstance(x, tuple) else x
        for e in st.events():
            if e.kind == "loop":
                inside.add(id(e.x["loop"]))
    return out | inside


def c44(rep):
    R = {k: rep.rule(k, v, k == "turn") for k, v in {
        "turn": "Every turn of a loop changes something that decides whether the loop goes on, or consumes input that "
                "runs out.",
        "way-out": "Every loop that can be entered can be left.",
        "chain": "A cell that is linked to another by the field a loop steps along is new, or the other one is, and no "
                 "cell is linked back to itself.",
    }.items()}
    for var in ("detox_SOURCES",):
        o = c_own.own(var)
        n, chased = 0, set()
        for s in c_own.functions(o):
            if not s.known():
                rep.unsure(R["turn"], s.fn.name, "not followed: %s" % s.why)
                continue
            eng = s.run.eng
            left = ways_out(s)
            for lp in loops(s.run):
                if lp.fn is not s.fn:
                    continue
                n += 1
                for v in transduce.variables(lp):
                    for h, t in lp.backs:
                        try:
                            at = single(v.next(t)) if v.next(t) is not None else None
                        except KeyError:
                            continue
                        if at is not None and at[0] == "leaf" and at[1] == "mem" and A(at[2]) == v.head(h):
                            chased.add(at[4][-1] if isinstance(at[4], tuple) else None)
                ctl = Control(o.p, eng, lp.fn, lp.info)
                where = place(lp)
                if id(lp) in left:
                    rep.ok(R["way-out"], where, "left")
                else:
                    rep.bad(R["way-out"], where, "no path leaves the loop")
                for h, t in lp.backs:
                    v, why = Turn(o.p, eng, lp, h, t, ctl).verdict()
                    if v is False:
                        rep.bad(R["turn"], where, "a turn changes nothing the loop depends on (%s): %s" % (
                            ", ".join(sorted(ctl.phis)) or "no variable", why or "no call"))
                    else:
                        rep.judge(R["turn"], where, v, why)
        chains(rep, R["chain"], o, chased)
        rep.note(functions=len(c_own.functions(o)), loops_in_context=n)


def chains(rep, rule, o, chased):
    """The links the functions leave behind, of the kinds the loops step along."""
    for s in c_own.functions(o):
        if not s.known():
            continue
        for st, rv in s.run.results:
            links = {}
            for (b, off), (v, cls) in st.mem.items():
                if cls in chased and v.t and not cached((b, off), v):
                    links[b] = st.split(v)[0]
            for b, to in links.items():
                seen, x = set(), b
                while x in links and x not in seen:
                    seen.add(x)
                    x = links[x]
                if x in links:
                    rep.bad(rule, s.fn.name, "leaves a list that leads back into itself")
                elif st.heap.get(b, ("",))[0] == "live" or to is not None and st.heap.get(to, ("",))[0] == "live":
                    rep.ok(rule, s.fn.name, "linked to or from something new")
                else:
                    rep.unsure(rule, s.fn.name, "links two cells that were both there before")


def deep_atoms(e):
    """Every atom in a nested description."""
    out = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if hasattr(x, "t") and hasattr(x, "c"):
            out |= atoms_of(x)
        elif isinstance(x, (tuple, list)):
            out.add(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else None
            todo += list(x)
    return out


def cyclic(v):
    """A value that is reduced to a range: it comes back to where it was."""
    at = single(v)
    return at is not None and at[0] in ("urem", "srem", "and") or \
        at is not None and at[0] == "op" and at[1] in ("urem", "srem", "and")


def place(lp):
    for i in lp.fn.blocks[lp.info.header].insts:
        if i.line:
            return "%s (%s)" % (i.loc(), lp.fn.name)
    for b in sorted(lp.info.blocks):
        for i in lp.fn.blocks[b].insts:
            if i.line:
                return "%s (%s)" % (i.loc(), lp.fn.name)
    return lp.fn.name
