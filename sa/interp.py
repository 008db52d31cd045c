"""The interpreter proper: instructions, calls, loops."""
import re

import llir
import libc
from engine import *  # noqa: F401,F403
from engine import Budget, Event, Facts, Node, State, join_states, merge, loops_of, norm, INF, BYTES, MODES
from terms import *  # noqa: F401,F403
from terms import _order

STRUCT = re.compile(r"^(struct|union)\.")


def sname(t):
    return STRUCT.sub("", t.name) if t.kind == "struct" and t.name else None


NOSLASH = BYTES - {47}


class Loop:
    """What the analysis knows about one loop in one context (kept in the loop event)."""

    def __init__(self, key, fn, info):
        self.key, self.fn, self.info = key, fn, info
        self.heads = []     # header states
        self.backs = []     # (header state, back-edge state)
        self.desc = {}


class Engine:
    def __init__(self, prog, opaque=(), from_start=False, budget=1500000, models=None, max_states=6000, record=()):
        self.prog = prog
        self.opaque = set(opaque)
        self.from_start = from_start
        self.ids = 0
        self.ptrs = set()
        self.doms, self.ivs = {}, {}
        self.objs = {}
        self._ctx, self._epochs = {}, {}
        self.steps, self.budget, self.max_states = 0, budget, max_states
        self.exits = []
        self.faults = []
        self.nullable = set()
        self.models = dict(libc.MODELS)
        if models:
            self.models.update(models)
        self._modref = {}
        self._fielddom = {}
        self._gwritten = None
        self._ind = {}
        self.visited = set()
        self.calls_seen = {}
        self.record = set(record)   # functions whose activations are recorded as events
        self.undecided = []
        self.noslash, self.dirents = set(), {}
        self.merge_limit = 3
        self.block_join = False
        self.enum_limit = 70000
        self.thread_limit = 12
        self.hard_merge = set()     # functions whose result states are joined into one per nullness of the result
        self.keep_globals = {"yyin", "yyout"}   # flex assigns them only when they are null

    # ------------------------------------------------------------ registries
    def epoch(self, st, inst, *key):
        """The file system epoch after a mutation: a function of the epoch before and of the call."""
        k = (st.fs, inst, st.stack, key)
        r = self._epochs.get(k)
        if r is None:
            r = self._epochs[k] = self.fresh_id()
        return r

    def fresh_id(self):
        self.ids += 1
        return self.ids

    def leaf(self, tag, w, *parts, ptr=False, dom=None, lo=None, hi=None):
        at = ("leaf", tag) + parts + (self.fresh_id(), w)
        if ptr:
            self.ptrs.add(at)
        if dom is not None:
            self.doms[at] = frozenset(dom)
        if lo is not None or hi is not None:
            self.ivs[at] = (-INF if lo is None else lo, INF if hi is None else hi)
        return at

    def is_ptr(self, at):
        return at[0] in ("obj", "fn") or at in self.ptrs

    def default_dom(self, at):
        d = self.doms.get(at)
        if d is not None:
            return d
        k = at[0]
        if k == "leaf":
            if at[1] in ("mem8", "byte?", "uninit8"):
                return NOSLASH if at[2] in self.noslash else BYTES
            if at[1] == "stat":
                return MODES if at[3] == "st_mode" else None
            if at[-1] == 1:
                return frozenset((0, 1))
            if at[1] == "mem":
                cls = at[4][2]
                if cls[0] == "f" and cls[2] is not None:
                    if cls[1] == "stat" and self.prog.field("stat", cls[2]) == "st_mode":
                        return MODES
                    d = self.field_dom(cls)
                    return d if isinstance(d, frozenset) else None
            return None
        if k == "cmp":
            return frozenset((0, 1))
        if k == "op" and at[1] in ("strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp"):
            return frozenset((-1, 0, 1))
        return None

    LO0 = {"strlen", "fmtlen", "unklen", "N", "up", "size", "off"}

    def default_iv(self, at, facts):
        v = self.ivs.get(at)
        if v:
            return v
        k = at[0]
        if k == "obj":
            return (4096, INF)
        if k == "fn":
            return (1, INF)
        if k == "cmp":
            return (0, 1)
        if k == "leaf":
            if at[1] in self.LO0:
                return (0, INF)
            if at[1] == "stat":
                return (0, INF)
            if at[1] == "mem" and at[2] in (("obj", "@stdin"), ("obj", "@stdout"), ("obj", "@stderr")):
                return (1, INF)
            if at[1] == "mem" and self.list_element(at):
                return (1, INF)
            if at in self.ptrs:
                return (0, INF)
            if at[1] == "mem" and at[4][2][0] == "f":
                d = self.field_dom(at[4][2])
                if d == "nonneg":
                    return (0, INF)
                if at[4][2][1] == "stat":
                    n = self.prog.field("stat", at[4][2][2])
                    if n in ("st_nlink", "st_ino", "st_dev", "st_size", "st_blocks"):
                        return (0, INF)
            return (-INF, INF)
        if k == "op":
            name, w, aw = at[1], at[2], at[3]
            a = at[4:]
            if name == "and":
                for x in a:
                    if isinstance(x, Lin) and not x.t and x.c >= 0:
                        return (0, x.c)
            if name == "sext" and aw <= 16:
                lo, hi = -(1 << (aw - 1)), (1 << (aw - 1)) - 1
                return (lo, hi)
            if name == "zext":
                return (0, (1 << aw) - 1)
            if name == "trunc" and w <= 8:
                return (0, (1 << w) - 1)
            if name in ("udiv", "lshr") or (name in ("sdiv",) and facts.lower(a[0]) >= 0 and facts.lower(a[1]) > 0):
                lo, hi = facts.lower(a[0]), facts.upper(a[0])
                if lo >= 0:
                    return (0, hi)
                return (0, INF) if name != "sdiv" else (-INF, INF)
            if name in ("urem", "srem") and not a[1].t and a[1].c > 0 and (name == "urem" or facts.lower(a[0]) >= 0):
                return (0, a[1].c - 1)
            if name == "urem":
                return (0, INF)
            if name == "mul" and facts.lower(a[0]) >= 0 and facts.lower(a[1]) >= 0:
                return (facts.lower(a[0]) * facts.lower(a[1]), INF)
            if name in ("strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp"):
                return (-1, 1)
            if name == "select":
                return (min(facts.lower(a[1]), facts.lower(a[2])), max(facts.upper(a[1]), facts.upper(a[2])))
            if name in libc.CTYPE:
                return (0, 1)
        return (-INF, INF)

    def list_element(self, at):
        """at was loaded from a file list's array: a name, never null (decided by C37)."""
        b = at[2]
        if b[0] != "leaf" or b[1] != "mem":
            return False
        c = b[4][2]
        return c[0] == "f" and c[1] == "filelist_t" and self.prog.field("filelist_t", c[2]) == "files"

    def mark_dirent(self, at):
        """at is a directory entry: its name is 1 to 255 bytes without a slash."""
        off = self.prog.offset("dirent", "d_name") if "dirent" in self.prog.fieldnames else 19
        self.noslash.add(at)
        self.dirents[at] = off
        self.ivs[("leaf", "strlen", at, 0, 64)] = (off + 1, off + 255)

    # values a field can ever hold, from all stores of the program (flow-insensitive)
    def field_dom(self, cls):
        if cls in self._fielddom:
            return self._fielddom[cls]
        self._fielddom[cls] = None
        vals, ok, nonneg = {0}, True, True
        for f in self.prog.funcs.values():
            for b in f.blocks.values():
                for i in b.insts:
                    if i.op != "store":
                        continue
                    if self.op_class(f, i.ops[1], i.extra["ty"]) != cls:
                        continue
                    if i.extra["ty"].kind != "int":
                        ok = nonneg = False
                        continue
                    v = i.ops[0]
                    if v[0] == "int":
                        vals.add(v[1])
                        nonneg = nonneg and v[1] >= 0
                        continue
                    ok = False
                    d = self.defs(f).get(v[1]) if v[0] == "loc" else None
                    if d is not None and d.op == "add" and d.ops[1][0] == "int" and d.ops[1][1] > 0:
                        ld = self.defs(f).get(d.ops[0][1]) if d.ops[0][0] == "loc" else None
                        if ld is not None and ld.op == "load" and self.op_class(f, ld.ops[0], ld.ty) == cls:
                            continue
                    if d is not None and d.op == "zext":
                        if d.extra["from"].bits == 1:
                            vals |= {0, 1}
                            ok = ok or False
                            continue
                        continue
                    nonneg = False
        # boolean expressions: zext i1 only
        if not ok:
            ok2 = True
            for f in self.prog.funcs.values():
                for b in f.blocks.values():
                    for i in b.insts:
                        if i.op == "store" and self.op_class(f, i.ops[1], i.extra["ty"]) == cls:
                            v = i.ops[0]
                            if v[0] == "int":
                                continue
                            d = self.defs(f).get(v[1]) if v[0] == "loc" else None
                            if d is None or d.op != "zext" or d.extra["from"].bits != 1:
                                ok2 = False
            ok = ok2
            if ok:
                vals |= {0, 1}
        aggregate = cls[1] in libc.EXTERNAL_STRUCTS
        r = None
        if not aggregate:
            if ok and len(vals) <= 16 and len(vals) > 1:
                r = frozenset(vals)
            elif nonneg:
                r = "nonneg"
        self._fielddom[cls] = r
        if r == "nonneg":
            return r
        return r

    def counter_class(self, cls):
        """Whether some store to the class adds a constant to what it holds (x++), and every other stores a constant."""
        k = ("ctr", cls)
        if k in self._ind:
            return self._ind[k]
        some, ok = False, cls[0] == "f"
        for f in self.prog.funcs.values() if ok else ():
            defs = self.defs(f)
            for b in f.blocks.values():
                for i in b.insts:
                    if i.op != "store" or self.op_class(f, i.ops[1], i.extra["ty"]) != cls or i.ops[0][0] == "int":
                        continue
                    d = defs.get(i.ops[0][1]) if i.ops[0][0] == "loc" else None
                    ld = None
                    if d is not None and d.op in ("add", "sub") and d.ops[1][0] == "int" and d.ops[0][0] == "loc":
                        ld = defs.get(d.ops[0][1])
                    if ld is not None and ld.op == "load" and self.op_class(f, ld.ops[0], ld.ty) == cls:
                        some = True
        self._ind[k] = ok and some
        return self._ind[k]

    def defs(self, f):
        if not hasattr(f, "_defs"):
            f._defs = {i.res: i for b in f.blocks.values() for i in b.insts if i.res}
        return f._defs

    def op_class(self, f, op, ty):
        """Access class of a pointer operand: ('f', struct, byte offset), ('g', global) or ('t', type)."""
        if op[0] == "glob":
            g = self.prog.glob(f.module, op[1])
            return ("g", g.key if g else op[1])
        if op[0] == "gep":
            return self.gep_class(op[1], op[3], ty) or (self.op_class(f, op[2], ty))
        if op[0] == "loc":
            d = self.defs(f).get(op[1])
            if d is not None and d.op == "getelementptr":
                c = self.gep_class(d.extra["ty"], d.ops[1:], ty)
                if c:
                    return c
                b = self.op_class(f, d.ops[0], ty) if d.ops[0][0] in ("glob",) else None
                if b and b[0] == "g":
                    return b
        return ("t", repr(ty))

    def gep_class(self, bt, idx, ty):
        t, last = bt, None
        for n, i in enumerate(idx):
            if n == 0:
                continue
            if t.kind == "struct":
                if i[0] != "int":
                    return None
                off, ft = llir.field_offset(t, i[1])
                last = ("f", sname(t), off)
                t = ft
            elif t.kind == "array":
                t = t.elem
        return last

    # globals that some instruction or library call of the program may write
    def gwritten(self):
        if self._gwritten is None:
            w = set()
            for f in self.prog.funcs.values():
                insts = [i for b in f.blocks.values() for i in b.insts]
                into = {}        # register -> globals it may point into

                def roots(op):
                    if op[0] == "loc":
                        return into.get(op[1], frozenset())
                    g = self._root_global(f, op)
                    return frozenset([g]) if g is not None else frozenset()
                more = True
                while more:
                    more = False
                    for i in insts:
                        if i.op in ("getelementptr", "phi", "select") and i.res:
                            ops = [x for x, _ in i.extra["inc"]] if i.op == "phi" else i.ops
                            g = frozenset().union(*[roots(x) for x in ops]) if ops else frozenset()
                            if not g <= into.get(i.res, frozenset()):
                                into[i.res] = into.get(i.res, frozenset()) | g
                                more = True
                for i in insts:
                    if i.op in ("load", "getelementptr", "icmp", "phi", "select"):
                        continue
                    if i.op == "call":
                        c = i.extra["callee"]
                        if c[0] == "glob" and c[1] in libc.READONLY_ARGS:
                            continue
                    for op in i.ops:
                        w |= roots(op)
            for g in self.prog.globals.values():
                for r in _init_refs(g.init):
                    gg = self.prog.glob(g.module, r)
                    if gg is not None and not gg.const:
                        w.add(gg.key)
            self._gwritten = w
        return self._gwritten

    def _root_global(self, f, op, depth=0):
        if op[0] == "glob":
            g = self.prog.glob(f.module, op[1])
            return g.key if g is not None and op[1] not in f.module.funcs else None
        if op[0] == "gep":
            return self._root_global(f, op[2])
        if op[0] == "loc" and depth < 6:
            d = self.defs(f).get(op[1])
            if d is not None and d.op == "getelementptr":
                return self._root_global(f, d.ops[0], depth + 1)
        return None

    def default_fill(self, base):
        if base[0] == "obj":
            i = base[1]
            if i == "errno":
                return "ext"
            if isinstance(i, str) and i.startswith("@"):
                g = self.prog.globals.get(i[1:])
                if g is None or g.init is None:
                    return "ext"
                if g.const or self.from_start or g.key not in self.gwritten():
                    return "init"
                return "ext"
            return self.objs.get(i, {}).get("fill", "undef")
        return "ext"

    def gobj(self, key):
        return ("obj", "@" + key)

    def global_byte(self, base, off):
        if off.t or not (isinstance(base[1], str) and base[1].startswith("@")):
            return None
        g = self.prog.globals.get(base[1][1:])
        if g is None:
            return None
        v = const_at(self.prog, g.module, g.ty, g.init, off.c, 1)
        return K(v & 255) if isinstance(v, int) else None

    def global_tail(self, base, off):
        """NUL-terminated bytes of a constant global from a constant offset."""
        if off.t or not (isinstance(base[1], str) and base[1].startswith("@")):
            return None
        g = self.prog.globals.get(base[1][1:])
        if g is None or g.init is None:
            return None
        if g.init[0] == "bytes":
            b = g.init[1]
        elif g.init[0] == "zero" and g.ty.kind == "array":
            b = b"\0" * g.ty.n
        else:
            return None
        if off.c < 0 or off.c >= len(b):
            return None
        e = b.find(b"\0", off.c)
        return b[off.c:] if e < 0 else b[off.c:e]

    def global_cell(self, base, off, ty):
        if off.t or not (isinstance(base[1], str) and base[1].startswith("@")):
            return None
        g = self.prog.globals.get(base[1][1:])
        if g is None:
            return None
        v = const_at(self.prog, g.module, g.ty, g.init, off.c, llir.sizeof(ty))
        if v is None:
            return None
        if isinstance(v, int):
            return K(v)
        if v[0] == "addr":
            return addc(A(self.gobj(v[1])), v[2])
        if v[0] == "fn":
            return A(("fn", v[1]))
        return None

    def strcmp_learn(self, st, at, equal):
        """strcmp(x, y) == 0 learnt: constrain the bytes of one side by the literal other side."""
        x, y = at[4], at[5]
        for p, q in ((x, y), (y, x)):
            p, q = p[1], q[1]
            if len(q) == 1 and q[0][0] == "lit" or q == ():
                lit = q[0][1] if q else b""
                if len(p) == 1 and p[0][0] == "src":
                    _, base, off, ver = p[0]
                    if equal:
                        for i, ch in enumerate(lit + b"\0"):
                            b = single(st.src_byte(base, addc(off, i), ver))
                            if b is None:
                                continue
                            d = st.facts.domof(b)
                            if d is not None:
                                if ch not in d:
                                    return False
                                if not st.set_byte(b, {ch}):
                                    return False
                    else:
                        # contradiction if every byte is already pinned to the literal
                        pinned, free = True, None
                        for i, ch in enumerate(lit + b"\0"):
                            b = single(st.src_byte(base, addc(off, i), ver))
                            d = st.facts.domof(b) if b is not None else None
                            if d == frozenset([ch]):
                                continue
                            if d is not None and ch not in d:
                                pinned = False
                                break
                            if free is not None:
                                pinned = False
                                break
                            free = (b, ch)
                        if pinned:
                            if free is None:
                                return False
                            d = st.facts.domof(free[0])
                            if d is not None:
                                if not st.set_byte(free[0], d - {free[1]}):
                                    return False
        return True

    # ------------------------------------------------------------ mod/ref of opaque functions
    def modref(self, fn, stack=()):
        r = self._modref.get(fn.key)
        if r is not None:
            return r
        if fn.key in stack:
            return set()
        out = set()
        for b in fn.blocks.values():
            for i in b.insts:
                if i.op == "store":
                    cls = self.op_class(fn, i.ops[1], i.extra["ty"])
                    root = self.root(fn, i.ops[1])
                    if root[0] == "local":
                        continue
                    if cls[0] == "t" and repr(i.extra["ty"]) == "i8" and root[0] == "fresh":
                        continue
                    out.add((cls, root))
                elif i.op == "call":
                    c = i.extra["callee"]
                    if c[0] != "glob":
                        out.add((("top",), ("other",)))
                        continue
                    g = self.prog.func(fn.module, c[1])
                    if g is not None:
                        for cls, root in self.modref(g, stack + (fn.key,)):
                            if root[0] == "arg":
                                k = root[1]
                                root = self.root(fn, i.ops[k]) if k < len(i.ops) else ("other",)
                                if root[0] in ("local",) or (root[0] == "fresh" and cls[0] == "t"):
                                    continue
                            out.add((cls, root))
                    else:
                        for k in libc.WRITES.get(c[1], ()):
                            if k < len(i.ops):
                                root = self.root(fn, i.ops[k])
                                if root[0] not in ("local", "fresh"):
                                    out.add((("t", "i8"), root))
                        if c[1] in libc.FS_MUTATORS and not self.reads_only(fn, i):
                            out.add((("fs",), ("other",)))
                        if c[1] == "setlocale":
                            out.add((("locale",), ("other",)))
        if not stack:
            self._modref[fn.key] = out
        return out

    def reads_only(self, fn, i):
        """fopen with a constant mode that only reads."""
        if i.extra["callee"][1] != "fopen":
            return False
        op = i.ops[1]
        g = self.prog.glob(fn.module, op[1]) if op[0] == "glob" else None
        if g is None or g.init is None:
            return False
        try:
            m = bytes(self.global_byte(("obj", "@" + g.key), K(k)).c for k in range(2))
        except Exception:
            return False
        return m[:1] == b"r" and b"+" not in m

    def root(self, f, op, depth=0):
        if op[0] == "glob":
            return ("global", op[1])
        if op[0] == "gep":
            return self.root(f, op[2])
        if op[0] != "loc":
            return ("const",)
        for k, (n, t) in enumerate(f.args):
            if n == op[1]:
                return ("arg", k)
        d = self.defs(f).get(op[1])
        if d is None or depth > 20:
            return ("other",)
        if d.op == "alloca":
            return ("local",)
        if d.op == "getelementptr":
            return self.root(f, d.ops[0], depth + 1)
        if d.op in ("phi", "select"):
            ops = [v for v, _ in d.extra["inc"]] if d.op == "phi" else d.ops[1:]
            rs = set()
            key = (f.key, d.res)
            if key in self._ind:
                return ("const",)
            self._ind[key] = 1
            for o in ops:
                r = self.root(f, o, depth + 1)
                if r != ("const",):
                    rs.add(r)
            del self._ind[key]
            if len(rs) == 1:
                return rs.pop()
            if rs and all(r[0] in ("fresh", "local") for r in rs):
                return ("fresh",)
            return ("other",) if rs else ("const",)
        if d.op == "call":
            c = d.extra["callee"]
            if c[0] == "glob":
                if c[1] in libc.FRESH:
                    return ("fresh",)
                if c[1] in libc.RET_ARG and libc.RET_ARG[c[1]] < len(d.ops):
                    return self.root(f, d.ops[libc.RET_ARG[c[1]]], depth + 1)
                g = self.prog.func(f.module, c[1])
                if g is not None and self.returns_fresh(g):
                    return ("fresh",)
            return ("other",)
        return ("other",)

    def returns_fresh(self, g, stack=()):
        k = ("rf", g.key)
        if k in self._modref:
            return self._modref[k]
        if g.key in stack:
            return True
        self._modref[k] = True
        ok, any_ = True, False
        for b in g.blocks.values():
            i = b.insts[-1]
            if i.op == "ret" and i.ops:
                if i.extra["ty"].kind != "ptr":
                    ok = False
                    break
                r = self.root(g, i.ops[0])
                any_ = True
                if r[0] not in ("fresh", "const"):
                    ok = False
        self._modref[k] = ok and any_
        return self._modref[k]

    # ------------------------------------------------------------ entry points
    def new_state(self):
        return State(self)

    def arg_leaf(self, name, ty, tag="arg"):
        w = ty.bits if ty.kind == "int" else 64
        at = ("leaf", tag, name, w)
        if ty.kind == "ptr":
            self.ptrs.add(at)
        return at

    def run_root(self, fn, args=None, st=None, nonnull=()):
        """Interprets fn with unknown arguments; returns [(state, ret)]; exits in self.exits."""
        st = st or self.new_state()
        if args is None:
            args = []
            for n, t in fn.args:
                at = self.arg_leaf(n, t)
                args.append(A(at))
                if n in nonnull:
                    self.ivs[at] = (1, INF)
                elif t.kind == "int" and t.bits == 64:
                    self.ivs[at] = (0, INF)     # sizes are below 2^63 (DESIGN.md, "Assumptions")
        return self.exec_function(fn, args, st)

    def obj(self, st, name, size, kind, fill, inst=None):
        """A fresh object.  Its identity is its allocation context and how many of that context the path already
        made, so that paths that did the same thing agree on it and can be joined."""
        key = (name, st.stack, size, kind)
        k = self._ctx.get(key)
        if k is None:
            k = self._ctx[key] = self.fresh_id()
        n = 0
        while ("obj", "%s#%d.%d" % (name, k, n)) in st.heap or ("obj", "%s#%d.%d" % (name, k, n)) in st.handles:
            n += 1
        oid = "%s#%d.%d" % (name, k, n)
        self.objs[oid] = {"size": size, "kind": kind, "fill": fill, "inst": inst}
        return ("obj", oid)

    # ------------------------------------------------------------ functions
    def exec_function(self, fn, args, st):
        self.visited.add(fn.key)
        caller = st.env
        st.env = {n: a for (n, t), a in zip(fn.args, args)}
        st.stack = st.stack + (fn.key,)
        loops, dom, irr = loops_of(fn)
        if irr:
            raise Budget("irreducible control flow in %s" % fn.name)
        outs = self.run(fn, set(fn.blocks), None, fn.order[0], None, st)
        res = []
        for o in outs:
            assert o[0] == "ret"
            s = o[1]
            s.env = dict(caller)
            s.stack = s.stack[:-1]
            # stack objects of the frame die here
            for fo in [fo for fo, h in s.heap.items() if h[0] == "stack" and h[1].fn is fn]:
                del s.heap[fo]
                for k in [k for k in s.mem if k[0] == fo]:
                    del s.mem[k]
                s.log.pop(fo, None)
                s.fill.pop(fo, None)
                s.bver.pop(fo, None)
            res.append((s, o[2]))
        return merge(self, res, self.merge_limit, hard=fn.name in self.hard_merge)

    def run(self, fn, region, header, block, prev, st, skip_phis=False):
        loops = loops_of(fn)[0]
        outs = []
        rank = self.ranks(fn)
        work = [(block, prev, st, skip_phis)]
        while work:
            if self.block_join and len(work) > 1:
                # blocks in topological order (loops are one step): every state of a block is there before it runs
                lo = min(rank[w[0]] for w in work)
                now = [w for w in work if rank[w[0]] == lo]
                work = [w for w in work if rank[w[0]] != lo]
                if len(now) > 1 and len(fn.blocks[now[0][0]].pred) > 1:
                    now = self.join_block(fn, now)
            else:
                now, work = [work.pop()], work
            for block, prev, st, skip in now:
                if block in loops and not (block == header):
                    for o in self.exec_loop(fn, loops[block], prev, st):
                        if o[0] == "edge":
                            _, t, frm, s = o
                            if t in region and t != header:
                                work.append((t, frm, s, False))
                            else:
                                outs.append(o)
                        else:
                            outs.append(o)
                    continue
                b = fn.blocks[block]
                if not skip:
                    self.phis(b, prev, st, fn)
                if len(work) + len(outs) > self.max_states:
                    raise Budget("too many abstract states in %s" % fn.name)
                self.exec_block(fn, b, 0, st, region, header, work, outs)
        return outs

    def ranks(self, fn):
        k = ("rank", fn.key)
        r = self._ind.get(k)
        if r is None:
            order, seen = [], set()

            def dfs(n):
                todo = [(n, iter(fn.blocks[n].succ))]
                seen.add(n)
                while todo:
                    m, it = todo[-1]
                    for t in it:
                        if t not in seen:
                            seen.add(t)
                            todo.append((t, iter(fn.blocks[t].succ)))
                            break
                    else:
                        order.append(m)
                        todo.pop()
            dfs(fn.order[0])
            r = self._ind[k] = {b: n for n, b in enumerate(reversed(order))}
        return r

    def live_in(self, fn):
        """SSA names live at the entry of each block (phi operands count at the predecessor, phi results are live)."""
        k = ("live", fn.key)
        r = self._ind.get(k)
        if r is not None:
            return r

        def uses(op, out):
            if op[0] == "loc":
                out.add(op[1])
            elif op[0] == "gep":
                uses(op[2], out)
                for x in op[3:]:
                    for y in (x if isinstance(x, (list, tuple)) else ()):
                        if isinstance(y, tuple) and y and isinstance(y[0], str):
                            uses(y, out)
        gen, kill, phi_use = {}, {}, {}
        for n, b in fn.blocks.items():
            g, kl = set(), set()
            for i in b.insts:
                if i.op == "phi":
                    for v, frm in i.extra["inc"]:
                        u = set()
                        uses(v, u)
                        phi_use.setdefault(frm, set()).update(u)
                    kl.add(i.res)
                    continue
                u = set()
                for v in i.ops:
                    uses(v, u)
                if i.op == "call" and i.extra["callee"][0] == "loc":
                    u.add(i.extra["callee"][1])
                g |= u - kl
                if i.res:
                    kl.add(i.res)
            gen[n], kill[n] = g, kl
        r = {n: set() for n in fn.blocks}
        ch = True
        while ch:
            ch = False
            for n in reversed(fn.order):
                o = set(phi_use.get(n, ()))
                for t in fn.blocks[n].succ:
                    o |= r[t]
                x = gen[n] | (o - kill[n])
                if x != r[n]:
                    r[n] = x
                    ch = True
        self._ind[k] = r
        return r

    def join_block(self, fn, now):
        """Joins states of a block that agree on everything except what their paths learnt."""
        block = now[0][0]
        live = self.live_in(fn)[block]
        b = fn.blocks[block]
        groups = []
        for w in now:
            _, prev, s, skip = w
            if skip:
                groups.append((None, None, [w]))
                continue
            sig = {n: s.env.get(n) for n in live}
            for i in b.insts:
                if i.op != "phi":
                    break
                for v, frm in i.extra["inc"]:
                    if frm == prev:
                        sig[("phi", i.res)] = self.val(s, v, i.ty, fn)
                        break
            for g in groups:
                t = g[1]
                if g[0] == sig and t.fs == s.fs and t.log == s.log and t.handles == s.handles and \
                        t.heap == s.heap and t.fill == s.fill and t.bver == s.bver and self.same_mem(t, s) and \
                        t.statmem == s.statmem and self.same_errors(t, s):
                    g[2].append(w)
                    break
            else:
                groups.append((sig, s, [w]))
        out = []
        for sig, s, ws in groups:
            if len(ws) == 1:
                out.append(ws[0])
                continue
            j = join_states(self, [w[2] for w in ws])
            # phi operands are looked up by name: give the joined state those of its first member
            out.append((block, ws[0][1], j, False))
        return out

    def same_mem(self, a, b):
        x, y = a.mem, b.mem
        if len(x) != len(y):
            n1 = {k for k in x if k[0] != ("obj", "errno")}
            n2 = {k for k in y if k[0] != ("obj", "errno")}
            if n1 != n2:
                return False
        for k, v in x.items():
            if k[0] == ("obj", "errno"):
                continue
            if y.get(k) != v:
                return False
        return True

    def same_errors(self, a, b):
        return True

    def phis(self, b, prev, st, fn):
        new = {}
        for i in b.insts:
            if i.op != "phi":
                break
            for v, frm in i.extra["inc"]:
                if frm == prev:
                    new[i.res] = self.val(st, v, i.ty, fn)
                    break
        st.env.update(new)

    def exec_block(self, fn, b, start, st, region, header, work, outs):
        n = len(b.insts)
        k = start
        while k < n:
            i = b.insts[k]
            self.steps += 1
            if self.steps > self.budget:
                raise Budget("step budget exhausted")
            op = i.op
            if op == "phi":
                k += 1
                continue
            if op == "call":
                rs = self.call(fn, i, st)
                if len(rs) == 1:
                    st, rv = rs[0]
                    if i.res:
                        st.env[i.res] = rv
                    k += 1
                    continue
                for s, rv in rs:
                    if i.res:
                        s.env[i.res] = rv
                    self.exec_block(fn, b, k + 1, s, region, header, work, outs)
                return
            if op == "select":
                c = self.val(st, i.ops[0], llir.INT(1), fn)
                x, y = self.val(st, i.ops[1], i.ty, fn), self.val(st, i.ops[2], i.ty, fn)
                r = st.decide(c)
                if r is not None:
                    st.env[i.res] = x if r else y
                    k += 1
                    continue
                s2 = st.fork()
                if s2.assume(c, False):
                    s2.env[i.res] = y
                    self.exec_block(fn, b, k + 1, s2, region, header, work, outs)
                if not st.assume(c, True):
                    return
                st.env[i.res] = x
                k += 1
                continue
            if op == "br":
                t = i.extra["targets"]
                if len(t) == 1:
                    self.goto(fn, b, t[0], st, region, header, work, outs)
                    return
                c = self.val(st, i.ops[0], llir.INT(1), fn)
                r = st.decide(c)
                if getattr(self, "_watch", None) is not None and (
                        not c.t or r is not None and all(a[0] in ("obj", "cmp") for a in atoms_of(c))):
                    self._watch.add((fn.key, b.name))
                if r is not None:
                    self.goto(fn, b, t[0] if r else t[1], st, region, header, work, outs)
                    return
                s2 = st.fork()
                if st.assume(c, True):
                    self.goto(fn, b, t[0], st, region, header, work, outs)
                if s2.assume(c, False):
                    self.goto(fn, b, t[1], s2, region, header, work, outs)
                return
            if op == "switch":
                self.switch(fn, b, i, st, region, header, work, outs)
                return
            if op == "ret":
                v = self.val(st, i.ops[0], i.extra["ty"], fn) if i.ops else K(0)
                outs.append(("ret", st, v))
                return
            if op == "unreachable":
                return
            if not self.simple(fn, i, st):
                return
            k += 1

    def goto(self, fn, b, t, st, region, header, work, outs):
        if t == header or t not in region:
            outs.append(("edge", t, b.name, st))
        else:
            work.append((t, b.name, st, False))

    def switch(self, fn, b, i, st, region, header, work, outs):
        ty = llir.INT(32)
        v = self.val(st, i.ops[0], ty, fn)
        w = 32
        rest = st
        for cv, tgt in i.extra["cases"]:
            c = K(cv)
            r = rest.facts.decide("eq", v, c, w)
            if r is True:
                self.goto(fn, b, tgt, rest, region, header, work, outs)
                return
            if r is False:
                continue
            s = rest.fork()
            if s.assume_cmp("eq", v, c, w):
                self.goto(fn, b, tgt, s, region, header, work, outs)
            rest = rest.fork()
            if not rest.assume_cmp("ne", v, c, w):
                return
        self.goto(fn, b, i.extra["default"], rest, region, header, work, outs)

    # ------------------------------------------------------------ values
    def val(self, st, v, ty, fn):
        k = v[0]
        if k == "loc":
            r = st.env.get(v[1])
            if r is None:
                return A(("leaf", "undef", fn.key, v[1], 64))
            return r
        if k == "int":
            n = v[1]
            if v[2] == 8:
                n &= 255
            elif v[2] == 1:
                n &= 1
            return K(n)
        if k == "null" or k == "zero":
            return K(0)
        if k == "undef":
            return A(("leaf", "undef", fn.key, self.fresh_id(), ty.bits or 64))
        if k == "glob":
            f = self.prog.func(fn.module, v[1])
            if f is not None and v[1] in fn.module.funcs:
                return A(("fn", f.key))
            if v[1] in fn.module.funcs:
                return A(("fn", v[1]))
            g = self.prog.glob(fn.module, v[1])
            return A(self.gobj(g.key if g else v[1]))
        if k == "gep":
            base = self.val(st, v[2], llir.PTR, fn)
            return self.gep(st, fn, v[1], base, v[3])
        if k == "cast":
            return self.val(st, v[2], v[3], fn)
        return A(("leaf", "const", fn.key, self.fresh_id(), 64))

    def gep(self, st, fn, bt, base, idx):
        r = base
        t = bt
        for n, ix in enumerate(idx):
            if n == 0:
                x = self.val(st, ix, llir.INT(64), fn)
                r = add(r, scale(x, llir.sizeof(t)))
                continue
            if t.kind == "struct":
                off, t = llir.field_offset(t, ix[1])
                r = addc(r, off)
            else:
                t = t.elem
                x = self.val(st, ix, llir.INT(64), fn)
                r = add(r, scale(x, llir.sizeof(t)))
        return r

    def mkop(self, st, name, w, aw, *args):
        if all(not a.t for a in args):
            try:
                return K(ev_atom(("op", name, w, aw) + args, {}))
            except Unknown:
                pass
        return A(("op", name, w, aw) + args)

    def binop(self, st, op, w, a, b):
        if op == "add":
            r = add(a, b)
            if w == 8 and r.t:
                return self.mkop(st, "trunc", 8, 32, r)
            return K(r.c & 255) if w == 8 else r
        if op == "sub":
            r = sub(a, b)
            if w == 8:
                return self.mkop(st, "trunc", 8, 32, r) if r.t else K(r.c & 255)
            return r
        if op == "mul":
            if not a.t:
                return scale(b, a.c)
            if not b.t:
                return scale(a, b.c)
            if (b.c, b.t) < (a.c, a.t) if False else (repr(b) < repr(a)):
                a, b = b, a
            return self.mkop(st, "mul", w, w, a, b)
        if op == "shl" and not b.t and 0 <= b.c < 32:
            return scale(a, 1 << b.c)
        if op == "and":
            if not a.t and b.t:
                a, b = b, a
            if not b.t:
                if w > 8 and b.c < 0:
                    lo, hi = st.facts.lower(a), st.facts.upper(a)
                    if 0 <= lo and hi < (1 << 31):
                        b = K(b.c & ((1 << hi.bit_length()) - 1))
                if b.c == 0:
                    return K(0)
                if w > 8 and b.c > 0 and (b.c & (b.c + 1)) == 0:
                    f = st.facts
                    if f.lower(a) >= 0 and f.upper(a) <= b.c:
                        return a
                if b.c == -1:
                    return a
                if w == 1:
                    return a
        if op == "or" and not b.t and b.c == 0:
            return a
        if op == "or" and not a.t and a.c == 0:
            return b
        if op == "xor" and w == 1 and not b.t and b.c == 1:
            return addc(scale(a, -1), 1)
        if op in ("udiv", "sdiv") and not b.t and b.c == 1:
            return a
        if op == "sdiv" and not b.t and b.c > 1 and a.t and not a.c % b.c and not any(c % b.c for _, c in a.t):
            q = K(a.c // b.c)
            for at, c in a.t:
                q = add(q, scale(A(at), c // b.c))
            return q
        if op == "or" and w > 8:
            # disjoint bits: (x << k) | y with 0 <= y < 2^k
            f = st.facts
            for x, y in ((a, b), (b, a)):
                if x.t and f.lower(y) >= 0:
                    g = 0
                    for _, c in x.t:
                        g |= c
                    g |= x.c
                    low = g & -g
                    if low > 1 and f.upper(y) < low and f.lower(x) >= 0:
                        return add(x, y)
        return self.mkop(st, op, w, w, a, b)

    def cast(self, st, op, frm, to, a):
        if op in ("bitcast", "ptrtoint", "inttoptr"):
            return a
        fw, tw = frm.bits, to.bits
        if not a.t:
            c = a.c
            if op == "zext":
                return K(c & ((1 << fw) - 1))
            if op == "sext":
                return K(_sxc(c, fw) if fw > 1 else -(c & 1))
            if op == "trunc":
                c &= (1 << tw) - 1
                return K(c if tw <= 8 else _sxc(c, tw))
            return A(("op", op, tw or 64, fw or 64, a))
        if op == "zext":
            if fw <= 8:
                return a
            if st.facts.lower(a) >= 0 or st.facts.ge0(a):
                return a
            return self.mkop(st, "zext", tw, fw, a)
        if op == "sext":
            if fw == 1:
                return scale(a, -1)
            if fw > 8:
                return a
            f = st.facts.values(a, 300)
            if f is not None and all(v < 128 for v in f):
                return a
            return self.mkop(st, "sext", tw, fw, a)
        if op == "trunc":
            s = single(a)
            if s is not None and s[0] == "op" and s[1] in ("sext", "zext") and s[3] == tw:
                return s[4]
            if tw >= 32:
                # lengths and offsets are assumed to be below 2^31 (DESIGN.md, "Assumptions")
                return a
            lo, hi = st.facts.lower(a), st.facts.upper(a)
            if lo >= 0 and hi < (1 << tw):
                return a
            if tw == 1:
                return self.mkop(st, "and", 32, 32, a, K(1))
            return self.mkop(st, "trunc", tw, fw, a)
        return A(("op", op, tw or 64, fw or 64, a))

    def simple(self, fn, i, st):
        op = i.op
        if op == "load":
            p = self.val(st, i.ops[0], llir.PTR, fn)
            cls = self.op_class(fn, i.ops[0], i.ty)
            r = self.load(st, p, i.ty, cls, i)
            if r is None:
                return False
            st.env[i.res] = r
        elif op == "store":
            ty = i.extra["ty"]
            v = self.val(st, i.ops[0], ty, fn)
            p = self.val(st, i.ops[1], llir.PTR, fn)
            return self.store(st, p, v, ty, self.op_class(fn, i.ops[1], ty), i)
        elif op == "getelementptr":
            base = self.val(st, i.ops[0], llir.PTR, fn)
            st.env[i.res] = self.gep(st, fn, i.extra["ty"], base, i.ops[1:])
        elif op == "icmp":
            a = self.val(st, i.ops[0], i.extra["ty"], fn)
            b = self.val(st, i.ops[1], i.extra["ty"], fn)
            w = i.extra["ty"].bits or 64
            pred = i.extra["pred"]
            if not a.t and b.t:
                a, b, pred = b, a, SWAP[pred]
            r = st.facts.decide(pred, a, b, w) if not (a.t or b.t) else None
            st.env[i.res] = K(int(r)) if r is not None else A(("cmp", pred, w, a, b))
        elif op in llir.BIN:
            a = self.val(st, i.ops[0], i.ty, fn)
            b = self.val(st, i.ops[1], i.ty, fn)
            st.env[i.res] = self.binop(st, op, i.ty.bits or 64, a, b)
        elif op in llir.CAST:
            a = self.val(st, i.ops[0], i.extra["from"], fn)
            st.env[i.res] = self.cast(st, op, i.extra["from"], i.ty, a)
        elif op == "alloca":
            ty = i.extra["ty"]
            n = self.val(st, i.extra["count"], llir.INT(64), fn) if "count" in i.extra else K(1)
            o = self.obj(st, "%s.%s" % (fn.name, i.res), scale(n, llir.sizeof(ty)), "stack", "undef", i)
            st.heap[o] = ("stack", i)
            st.env[i.res] = A(o)
        elif op == "freeze":
            st.env[i.res] = self.val(st, i.ops[0], i.ty, fn)
        else:
            if i.res:
                st.env[i.res] = A(self.leaf("other", 64))
        return True

    # ------------------------------------------------------------ memory
    def deref(self, st, p, i, what, size=None):
        """Common checks of an access; (base, off) or None if the path ends here."""
        nul = st.isnull(p)
        if nul is True:
            st.event("null", what, (p,), None, i)
            return None
        if nul is None:
            st.event("maybe-null", what, (p,), None, i)
            if not st.assume_cmp("ne", p, K(0), 64):
                return None
        base, off = st.split(p)
        if base is None:
            st.event("wild", what, (p,), None, i)
            return None
        h = st.heap.get(base)
        if h and h[0] in ("freed", "maybe-freed"):
            st.event("use-after-free", what, (p,), None, i, status=h[0])
        return base, off

    def load(self, st, p, ty, cls, i):
        bo = self.deref(st, p, i, "load")
        if bo is None:
            return None
        base, off = bo
        st.event("load", repr(ty), (p,), None, i, size=llir.sizeof(ty),
                 ver=st.bver.get(base, 0)) if self.want_access(base) else None
        if ty.kind == "int" and ty.bits == 8:
            return st.read_byte(base, off)
        return st.load_cell(base, off, cls, ty, i)

    def want_access(self, base):
        return "access" in self.record

    def store(self, st, p, v, ty, cls, i):
        bo = self.deref(st, p, i, "store")
        if bo is None:
            return False
        base, off = bo
        if ty.kind == "int" and ty.bits == 8:
            st.event("store8", "", (p, v), None, i, size=1)
            st.write_byte(base, off, v)
        else:
            st.event("store", cls, (p, v), None, i, size=llir.sizeof(ty))
            if ty.kind == "ptr":
                st.escape(v)
            st.store_cell(base, off, cls, v, llir.sizeof(ty))
        return True

    # ------------------------------------------------------------ calls
    def call(self, fn, i, st):
        c = i.extra["callee"]
        args = [self.val(st, v, t, fn) if v[0] != "meta" else K(0) for v, t in zip(i.ops, i.extra["tys"])]
        if c[0] == "glob":
            name = c[1]
            g = self.prog.func(fn.module, name)
        elif c[0] == "loc":
            v = self.val(st, c, llir.PTR, fn)
            s = single(v)
            if s is not None and s[0] == "fn":
                g = self.prog.funcs.get(s[1])
                name = s[1].split(":")[-1]
            else:
                st.event("call", "<indirect>", args, None, i)
                return [(st, A(self.leaf("ret", 64, "<indirect>", ptr=i.ty.kind == "ptr")))]
        else:
            return [(st, A(self.leaf("asm", 64)))]
        self.calls_seen[name] = self.calls_seen.get(name, 0) + 1
        if name.startswith("llvm."):
            base = name.split(".")[1]
            if base in ("memcpy", "memset", "memmove"):
                name = base
            elif base in ("dbg", "lifetime", "assume", "expect", "trap"):
                return [(st, K(0))]
        if g is not None:
            m = self.models.get("!" + name)
            if m is not None:
                return m(self, st, i, args, name)
            if name in self.opaque or g.key in self.opaque:
                return self.opaque_call(st, i, g, args)
            if g.key in st.stack:
                return self.opaque_call(st, i, g, args, recursive=True)
            if name in self.record:
                e = st.event("enter", name, args, None, i, strs=libc.contents(self, st, args))
                rs = self.exec_function(g, args, st)
                for s, rv in rs:
                    s.event("leave", name, args, rv, i, enter=e)
                return rs
            return self.exec_function(g, args, st)
        m = self.models.get(name)
        if m is None:
            return libc.unknown(self, st, i, args, name)
        return m(self, st, i, args, name)

    def opaque_call(self, st, i, g, args, recursive=False):
        strs = libc.contents(self, st, args)
        mods = self.modref(g)
        for a in args:
            st.escape(a)
            h = st.heap.get(st.split(a)[0]) if a.t else None
            if h and h[0] in ("freed", "maybe-freed"):
                st.event("use-after-free", g.name, (a,), None, i, status=h[0])
        havoc = False
        for cls, root in mods:
            if cls[0] == "fs":
                st.fs = self.epoch(st, i)
                continue
            if cls[0] == "locale":
                continue
            if cls[0] == "top":
                havoc = True
                continue
            if cls[0] == "g" and cls[1].split(":")[-1] in self.keep_globals:
                continue
            if cls[0] == "t":
                if root[0] == "arg" and root[1] < len(args):
                    b, o = st.split(args[root[1]])
                    if b is not None and cls[1] == "i8":
                        st.havoc_str(b)
                    continue
                if cls[1] == "i8":
                    # character data reached through memory: strings of unknown bases keep their identity
                    # (assumption, DESIGN.md): the callee's own buffers
                    continue
            self.havoc_class(st, cls)
        if havoc:
            st.mem = {}
        w = i.ty.bits if i.ty.kind == "int" else 64
        rv = K(0)
        if i.ty.kind != "void":
            # the same call in the same situation yields the same unknown, so that paths can be joined
            key = ("ret", i, st.stack, tuple(args), tuple(sorted(strs.items())), st.fs, st.lpid)
            n = 0
            while (key, n) in st.calls:
                n += 1
            st.calls = st.calls | {(key, n)}
            at = self._epochs.get((key, n))
            if at is None:
                at = self._epochs[(key, n)] = self.leaf("ret", w, g.name, ptr=i.ty.kind == "ptr")
            rv = A(at)
        st.event("call", g.name, args, rv, i, strs=strs, opaque=True, recursive=recursive, epoch=st.fs,
                 mem=dict(st.mem))
        return [(st, rv)]

    def havoc_class(self, st, cls):
        st.cver[cls] = self.fresh_id()
        for k in [k for k, v in st.mem.items() if v[1] == cls]:
            b = k[0]
            if b[0] == "obj" and b not in st.escaped and not (isinstance(b[1], str) and b[1].startswith("@")):
                continue
            del st.mem[k]
            if cls[0] == "g" and st.fillof(b) == "init":
                st.fill[b] = "ext"
                st.bver[b] = self.fresh_id()
        if cls[0] == "g":
            b = self.gobj(cls[1])
            if st.fillof(b) == "init":
                st.fill[b] = "ext"
                st.bver[b] = self.fresh_id()

    # ------------------------------------------------------------ loops
    def induction(self, fn, L, phi):
        """Whether every back-edge value of the phi is the phi plus something along add/gep/phi chains."""
        key = (fn.key, phi.res)
        if key in self._ind:
            return self._ind[key]
        defs = self.defs(fn)
        seen = set()

        def ok(v):
            if v[0] != "loc":
                return None
            if v[1] == phi.res:
                return False
            if v[1] in seen:
                return False
            seen.add(v[1])
            d = defs.get(v[1])
            if d is None or d.block.name not in L.blocks:
                return None
            if d.op == "getelementptr":
                r = ok(d.ops[0])
                return None if r is None else True
            if d.op in ("add", "sub"):
                r = ok(d.ops[0])
                if r is None and d.op == "add":
                    r = ok(d.ops[1])
                return None if r is None else True
            if d.op == "phi":
                rs = [ok(x) for x, _ in d.extra["inc"]]
                if any(r is None for r in rs):
                    return None
                return any(rs)
            if d.op == "select":
                rs = [ok(x) for x in d.ops[1:]]
                return None if any(r is None for r in rs) else any(rs)
            if d.op in ("zext", "sext", "trunc"):
                return ok(d.ops[0])
            return None
        res = True
        some = False
        for v, frm in phi.extra["inc"]:
            if frm in L.blocks:
                r = ok(v)
                if r is None:
                    res = False
                elif r:
                    some = True
        self._ind[key] = res and some
        return self._ind[key]

    def exec_loop(self, fn, L, prev, st):
        b = fn.blocks[L.header]
        phis = [i for i in b.insts if i.op == "phi"]
        init = {}
        for i in phis:
            for v, frm in i.extra["inc"]:
                if frm == prev:
                    init[i.res] = self.val(st, v, i.ty, fn)
        # 1. bounded unrolling when an exit test is decided by constants alone
        r = self.try_unroll(fn, L, init, st)
        if r is not None:
            return r
        # 2. fixpoint
        order0 = len(_order)
        desc = {}
        for i in phis:
            desc[i.res] = ["aff", "X", None] if self.induction(fn, L, i) else ["same"]
        mdesc, logs, classes, fs, handles = {}, set(), set(), False, {}
        cand = {}          # (phi) -> bound X with  D <= X
        tried, threads = False, True
        mark, fmark = len(self.exits), len(self.faults)
        for rnd in range(14):
            del self.exits[mark:]
            del self.faults[fmark:]
            lp = Loop((fn.key, L.header), fn, L)
            lp.uid = self.fresh_id()
            lp.desc = desc
            heads = self.build_heads(fn, L, phis, init, st, desc, mdesc, logs, classes, fs, lp, cand)
            outs, backs = [], []
            for h in heads:
                s0 = h.fork()
                h.hnode = s0.ev
                for o in self.run(fn, L.blocks, L.header, L.header, None, s0, skip_phis=True):
                    if o[0] == "edge" and o[1] == L.header:
                        backs.append((h, o[3], o[2]))
                    else:
                        outs.append((h, o))
            if threads:
                b2, o2, cnt = self.thread(fn, L, phis, backs)
                if cnt > self.thread_limit:
                    threads = False
                else:
                    backs, outs = b2, outs + o2
            ch = self.join(fn, L, phis, init, st, desc, mdesc, logs, classes, backs, order0)
            for h, s, frm in backs:
                if s.fs != h.fs and not fs:
                    fs = ch = True
            if not ch:
                if not tried:
                    tried = True
                    cand = self.candidates(phis, init, st, desc, heads, backs, fn)
                    X = self.count_bound(st, lp, backs, order0)
                    if X is not None:
                        cand["#N"] = X
                    cand.update(self.templates(fn, phis, init, desc, backs, lp, order0))
                    if cand:
                        continue
                elif cand:
                    bad = [k for k in cand if not (
                        self.template_holds(k[1], cand[k], backs, phis, fn, desc, lp) if k[0] == "tmpl" else
                        self.cand_holds(k, cand[k], backs, phis, fn) if k != "#N" else
                        all(s.facts.ge0(addc(sub(cand[k], lp.N), -1)) for h, s, frm in backs))]
                    if bad:
                        for k in bad:
                            del cand[k]
                        continue
                break
            elif tried:
                tried, cand = False, {}
        else:
            raise Budget("loop at %s in %s does not stabilise" % (L.header, fn.name))
        lp.heads, lp.init, lp.pre, lp.mdesc = heads, init, st, mdesc
        lp.backs = [(h, s) for h, s, frm in backs]
        copies = self.copied(st, logs, heads, backs, lp) if backs else {}
        for h, s, frm in backs:
            s.phi_next = {i.res: self.val(s, v, i.ty, fn) for i in phis for v, f2 in i.extra["inc"] if f2 == frm}
        res = []
        for h, o in outs:
            s = o[1] if o[0] == "ret" else o[3]
            for bs, (at0, piece) in copies.items():
                # what the completed iterations copied, then what the last partial one wrote
                n = lp.count
                s.log[bs] = st.log.get(bs, ()) + ((at0, "S", (piece,), False, n),) + s.log.get(bs, ())
                for d in (s.fill, s.bver):
                    d.pop(bs, None)
                if bs in st.fill:
                    s.fill[bs] = st.fill[bs]
                if bs in st.bver:
                    s.bver[bs] = st.bver[bs]
            s.event("loop-exit", L.header, (), None, fn.blocks[L.header].insts[0], loop=lp)
            self.settle(s, h)
            if s.dead:
                continue
            if o[0] == "ret":
                res.append(("ret", s, subst(o[2], s.sub) if s.sub else o[2]))
            else:
                res.append(o)
        return res

    def copied(self, st, logs, heads, backs, lp):
        """Buffers the loop fills with consecutive bytes of another string: base -> (first offset, piece)."""
        out = {}
        if len(heads) != 1 or len(logs) > 4:
            return out
        n = single(lp.N)
        lp.count = lp.N
        for bs in logs:
            got = None
            for h, s, frm in backs:
                lg = s.log.get(bs, ())
                if len(lg) != 1 or lg[0][1] != "b" or h.log.get(bs, ()) or s.bver.get(bs) != h.bver.get(bs):
                    got = None
                    break
                off, val = lg[0][0], single(lg[0][2])
                if val is None or val[0] != "leaf" or val[1] != "mem8" or val[2] == bs or val[2] in logs:
                    got = None
                    break
                o0, s0 = sub(off, lp.N), sub(val[3], lp.N)
                if n in atoms_of(o0) or n in atoms_of(s0) or st.bver.get(val[2], 0) != val[4]:
                    got = None
                    break
                new = (o0, ("sub", val[2], s0, lp.N, val[4]))
                if got is not None and got != new:
                    got = None
                    break
                got = new
            if got is not None:
                out[bs] = got
        return out

    def settle(self, s, h):
        """Loop exits: an iteration count that is now known to equal a length is replaced by it."""
        s.sub, s.dead = {}, False
        f = s.facts
        for at, X in h.bounds:
            d = sub(X, A(at))
            if f.ge0(d) and f.ge0(scale(d, -1)) and at not in atoms_of(X):
                s.sub[at] = X
        if s.sub:
            m = s.sub
            s.env = {k: subst(v, m) for k, v in s.env.items()}
            s.mem = {(k[0], subst(k[1], m)): (subst(v[0], m), v[1]) for k, v in s.mem.items()}
            s.log = {k: tuple(tuple(subst(e, m) if isinstance(e, (Lin, tuple)) else e for e in w) for w in v)
                     for k, v in s.log.items()}
            s.lin = s.lin + tuple(subst(x, m) for x in s.lin if subst(x, m) != x)
            s._facts = None

    def unrollable(self, fn, L):
        """The blocks of the loop whose exit tests could be decided by constants (no call result involved)."""
        k = ("unr", fn.key, L.header)
        r = self._ind.get(k)
        if r is not None:
            return r
        defs = self.defs(fn)
        r = set()
        todo = [(bn, fn.blocks[bn].insts[-1].ops[0]) for bn in L.blocks
                if any(t not in L.blocks for t in fn.blocks[bn].succ) and fn.blocks[bn].insts[-1].ops
                and fn.blocks[bn].insts[-1].op in ("br", "switch")]
        seen = set()
        while todo:
            bn, cond = todo.pop()
            if (bn, cond) in seen:
                continue
            seen.add((bn, cond))
            if self.by_constants(fn, L, defs, cond):
                r.add(bn)
                continue
            d = defs.get(cond[1]) if cond[0] == "loc" else None
            if d is not None and d.op == "phi" and d.block.name in L.blocks and d.block.name != L.header:
                for v, frm in d.extra["inc"]:      # `a && b`: the test of a alone may end the loop
                    i = fn.blocks[frm].insts[-1]
                    if v[0] == "int" and frm in L.blocks and i.op == "br" and i.ops and len(i.extra["targets"]) == 2:
                        todo.append((frm, i.ops[0]))
                    elif v[0] == "loc":
                        todo.append((frm, v))
        self._ind[k] = r
        return r

    def by_constants(self, fn, L, defs, cond):
        todo, seen = [cond], set()
        while todo:
            v = todo.pop()
            if v[0] == "gep":
                todo.append(v[2])
            if v[0] != "loc" or v[1] in seen:
                continue
            seen.add(v[1])
            d = defs.get(v[1])
            if d is None or d.block.name not in L.blocks:
                continue
            if d.op == "call":
                c = d.extra["callee"]
                if c[0] != "glob" or self.prog.func(fn.module, c[1]) is not None or c[1] not in libc.PURE:
                    return False
            if d.op == "phi":
                todo += [x for x, _ in d.extra["inc"]]
            else:
                todo += list(d.ops)
        return True

    def try_unroll(self, fn, L, init, st):
        tests = self.unrollable(fn, L)
        if not tests:
            return None
        save = getattr(self, "_watch", None)
        outs = []
        cur = [(init, st.fork())]
        ids, steps = self.ids, self.steps
        limit = 20
        exits_before, faults_before = len(self.exits), len(self.faults)
        for n in range(limit):
            nxt = []
            self._watch = set()
            for ini, s in cur:
                s = s.fork()
                s.env.update(ini)
                try:
                    rs = self.run(fn, L.blocks, L.header, L.header, None, s, skip_phis=True)
                except Budget:
                    self._watch = save
                    raise
                for o in rs:
                    if o[0] == "edge" and o[1] == L.header:
                        s2 = o[3]
                        new = {}
                        for i in fn.blocks[L.header].insts:
                            if i.op != "phi":
                                break
                            for v, frm in i.extra["inc"]:
                                if frm == o[2]:
                                    new[i.res] = self.val(s2, v, i.ty, fn)
                        nxt.append((new, s2))
                    else:
                        outs.append(o)
            w = self._watch
            self._watch = save
            if not nxt:
                return outs
            if not any(f == fn.key and b in tests for f, b in w):
                del self.exits[exits_before:]
                del self.faults[faults_before:]
                return None
            if len(nxt) > 150:
                del self.exits[exits_before:]
                del self.faults[faults_before:]
                return None
            cur = nxt
        del self.exits[exits_before:]
        del self.faults[faults_before:]
        return None

    def pure_front(self, fn, L):
        """The blocks of a loop that are reached from its header before anything happens (no call, no store)."""
        k = ("front", fn.key, L.header)
        r = self._ind.get(k)
        if r is None:
            inner = loops_of(fn)[0]
            r, todo = set(), [L.header]
            while todo:
                b = todo.pop()
                if b in r or b not in L.blocks or b in inner and b != L.header:
                    continue
                if any(i.op in ("call", "store", "ret", "unreachable") for i in fn.blocks[b].insts):
                    continue
                r.add(b)
                todo += list(fn.blocks[b].succ)
            self._ind[k] = r
        return r

    def thread(self, fn, L, phis, backs):
        """Turns that set a variable to a constant with which the loop is left at once run on into the exit, as if they
        left the loop themselves: (remaining back edges, ways out, how many)."""
        front = self.pure_front(fn, L)
        if L.header not in front:
            return backs, [], 0
        keep, outs, cnt = [], [], 0

        def leaves(s, nx):
            s.env.update(nx)
            r = []
            for o in self.run(fn, front, L.header, L.header, None, s, skip_phis=True):
                if o[0] != "edge" or o[1] in L.blocks:
                    return None
                r.append(o)
            return r
        for h, s, frm in backs:
            nx = {i.res: self.val(s, v, i.ty, fn) for i in phis for v, f2 in i.extra["inc"] if f2 == frm}
            if any(not v.t and v != h.pv[k] for k, v in nx.items()):
                r = leaves(s.fork(), nx)
                if r is not None:
                    outs += [(h, o) for o in r]
                    cnt += 1
                    continue
            done = False
            for i in phis:
                at = single(nx[i.res])
                if i.ty.kind != "int" or at is None or at[0] != "cmp":
                    continue
                sides = []
                for c in (0, 1):
                    s2 = s.fork()
                    if s2.assume_cmp("eq", nx[i.res], K(c), i.ty.bits):
                        r = leaves(s2.fork(), {**nx, i.res: K(c)})
                        sides.append((s2, r))
                if any(r is not None for s2, r in sides):
                    for s2, r in sides:
                        if r is None:
                            keep.append((h, s2, frm))
                        else:
                            outs += [(h, o) for o in r]
                            cnt += 1
                    done = True
                    break
            if not done:
                keep.append((h, s, frm))
        return keep, outs, cnt

    def build_heads(self, fn, L, phis, init, st, desc, mdesc, logs, classes, fs, lp, cand):
        N = A(("leaf", "N", fn.key, L.header, self.fresh_id(), 64))
        base = st.fork()
        bounds = []
        for cls in classes:
            base.cver[cls] = self.fresh_id()
            for k in [k for k, v in base.mem.items() if v[1] == cls]:
                if k not in mdesc and not (k[0][0] == "obj" and k[0] not in base.escaped):
                    del base.mem[k]
        for bs in logs:
            base.havoc_str(bs)
        if fs:
            base.fs = self.fresh_id()
        vers = [(base, {})]

        def alternatives(d, ini, ty, name):
            """[(value, constraint)] for one phi or cell."""
            w = ty.bits if ty.kind == "int" else 64
            if d[0] == "same":
                return [ini]
            if d[0] == "aff":
                if d[1] == "step":
                    return [add(ini, scale(N, d[2]))]
                tag = {"up": "up", "down": "dn", "X": "any", "any": "any"}[d[1]]
                at = ("leaf", tag, name, self.fresh_id(), 64)
                if d[1] == "down":
                    self.ivs[at] = (-INF, 0)
                return [add(ini, A(at))]
            if d[0] == "iset":
                at = ("leaf", "phi", name, self.fresh_id(), w)
                if d[2] is None:
                    self.doms[at] = frozenset(d[1])
                elif w == 8:
                    self.doms[at] = BYTES
                elif d[2]:
                    self.ivs[at] = (0, INF)
                return [A(at)]
            out = list(d[1])
            top = d[2]
            if top is not None:
                tb, nn, de = top
                if tb is not None:
                    at = ("leaf", "poff", name, self.fresh_id(), 64)
                    if nn:
                        self.ivs[at] = (0, INF)
                    out.append(add(A(tb), A(at)))
                else:
                    at = ("leaf", "phi", name, self.fresh_id(), w)
                    if ty.kind == "ptr":
                        self.ptrs.add(at)
                        if nn:
                            self.ivs[at] = (1, INF)
                        if de:
                            self.mark_dirent(at)
                    elif nn:
                        self.ivs[at] = (0, INF)
                    if w == 8:
                        self.doms[at] = BYTES
                    out.append(A(at))
            return out
        for i in phis:
            t = cand.get(("tmpl", i.res))
            if t is not None:
                alts = [e for e in desc[i.res][1] if not e.t] + [self.reloc(t[0], {t[1]: N})]
            else:
                alts = alternatives(desc[i.res], init[i.res], i.ty, i.res)
            nv = []
            for s, pv in vers:
                for a in alts:
                    s2 = s.fork() if len(alts) > 1 else s
                    s2.env[i.res] = a
                    nv.append((s2, {**pv, i.res: a}))
            vers = nv
        for key, d in mdesc.items():
            nv = []
            for s, pv in vers:
                alts = alternatives(d["d"], d["init"], d["ty"], "mem")
                for a in alts:
                    s2 = s.fork() if len(alts) > 1 else s
                    s2.mem[key] = (a, d["cls"])
                    nv.append((s2, pv))
            vers = nv
        if len(vers) > 24:
            # too many partitions: drop the partition with most elements
            big = max([("p", k, len(d[1])) for k, d in desc.items() if d[0] == "set"] +
                      [("m", k, len(d["d"][1])) for k, d in mdesc.items() if d["d"][0] == "set"], key=lambda x: x[2])
            d = desc[big[1]] if big[0] == "p" else mdesc[big[1]]["d"]
            d[1], d[2] = [], (None, False, False)
            return self.build_heads(fn, L, phis, init, st, desc, mdesc, logs, classes, fs, lp, cand)
        heads = []
        for s, pv in vers:
            s.pv = pv
            s.bounds = []
            for res, X in cand.items():
                if res[0] == "tmpl":
                    continue
                if res == "#N":
                    if s.addge(sub(X, N)):
                        s.bounds.append((single(N), X))
                    continue
                D = sub(pv[res], init[res])
                at = single(D)
                if at is None and desc[res][0] == "aff" and desc[res][1] == "step" and desc[res][2] != 0:
                    at = single(N)
                    if abs(desc[res][2]) != 1:
                        at = None
                if s.addge(sub(X, D)) and at is not None and D == A(at):
                    s.bounds.append((at, X))
            s.lpid = lp.uid
            s.event("loop", L.header, (), None, fn.blocks[L.header].insts[0], loop=lp)
            s.lp = lp
            heads.append(s)
        lp.N = N
        return heads

    def candidates(self, phis, init, st, desc, heads, backs, fn):
        """Upper bounds X for inductive displacements: the length of the string they walk."""
        cand = {}
        for i in phis:
            d = desc[i.res]
            if d[0] != "aff" or d[1] not in ("step", "up"):
                continue
            if d[1] == "step" and d[2] <= 0:
                continue
            X = None
            if i.ty.kind == "ptr":
                b, o = st.split(init[i.res])
                if b is not None:
                    parts = st.content(b, o)
                    if parts is not None:
                        X = st.plen(parts)
            else:
                # an index: look for a byte read at base+index on a back edge
                for h, s, frm in backs:
                    D = sub(h.pv[i.res], K(0))
                    for at in list(s.dom):
                        if at[0] == "leaf" and at[1] == "mem8":
                            o = sub(at[3], D)
                            if not (set(x for x, _ in D.t) & set(x for x, _ in o.t)) and D.t:
                                X = sub(sub(st.strlen_atom(at[2], at[4]), o), init[i.res])
                                break
                    if X is not None:
                        break
            if X is None:
                continue
            if not st.facts.ge0(X):
                continue
            cand[i.res] = X
        return {k: v for k, v in cand.items() if self.cand_holds(k, v, backs, phis, fn, first=True)}

    def reloc(self, x, m):
        """subst, with what is known of the kind of each value."""
        r = K(x.c)
        for at, c in x.t:
            n = subst_atom(at, m)
            if n is None:
                n = A(at)
            else:
                a2 = single(n)
                if a2 is not None and at in self.ptrs:
                    self.ptrs.add(a2)
                if a2 is not None and at in self.ivs:
                    self.ivs.setdefault(a2, self.ivs[at])
                if a2 is not None and at in self.doms:
                    self.doms.setdefault(a2, self.doms[at])
            r = add(r, n, c)
        return r

    def back_values(self, res, backs, phis, fn):
        i = [i for i in phis if i.res == res][0]
        for h, s, frm in backs:
            for v, f2 in i.extra["inc"]:
                if f2 == frm:
                    yield h, s, self.val(s, v, i.ty, fn)

    def templates(self, fn, phis, init, desc, backs, lp, order0):
        """Variables that hold, in the turn N, a certain function of N, such as the element N of an array:
        {("tmpl", phi): (value in terms of an atom, that atom)}."""
        out, n = {}, single(lp.N)
        for i in phis:
            d = desc[i.res]
            if d[0] != "set" or d[2] is None or i.ty.kind != "ptr":
                continue
            E = None
            for h, s, nv in self.back_values(i.res, backs, phis, fn):
                if not nv.t and nv in d[1]:
                    continue
                if E is not None and E != nv:
                    E = None
                    break
                E = nv
            else:
                if E is None or n not in atoms_of(E) or single(E) is None:
                    continue
                T = subst(E, {n: addc(lp.N, -1)})
                if subst(T, {n: K(0)}) != init[i.res]:
                    continue
                if any(n not in atoms_of(a) and self.new_atom(a, order0) for a in atoms_of(T)):
                    continue
                out[("tmpl", i.res)] = (self.reloc(E, {n: addc(lp.N, -1)}), n)
        return out

    def template_holds(self, res, t, backs, phis, fn, desc, lp):
        want = self.reloc(t[0], {t[1]: addc(lp.N, 1)})
        for h, s, nv in self.back_values(res, backs, phis, fn):
            if nv != want and not (not nv.t and nv in desc[res][1]) and not s.facts.eq0(sub(nv, want)):
                return False
        return True

    def count_bound(self, st, lp, backs, order0):
        """An upper bound on the number of iterations from a guard that counts: some path round the loop knows
        N <= E, with E not changed by the loop, so N + 1 <= E + 1 afterwards."""
        n = single(lp.N)
        for h, s, frm in backs[:4]:
            for x in s.lin:
                c = dict(x.t).get(n)
                if c != -1 or any(at != n and self.new_atom(at, order0) for at, _ in x.t):
                    continue
                X = addc(add(x, lp.N), 1)
                if n in atoms_of(X) or not st.facts.ge0(X):
                    continue
                if all(s2.facts.ge0(addc(sub(X, lp.N), -1)) for _, s2, _ in backs):
                    return X
        for h, s, frm in backs[:4]:
            for x in sorted(s.ne, key=repr):
                # counting until equal: N <= E at the start and N != E on the way round
                c = dict(x.t).get(n)
                if c not in (1, -1) or any(at != n and self.new_atom(at, order0) for at, _ in x.t):
                    continue
                X = add(x if c == -1 else scale(x, -1), lp.N)
                if n in atoms_of(X) or not st.facts.ge0(X):
                    continue
                return X
        return None

    def cand_holds(self, res, X, backs, phis, fn, first=False):
        if first:
            return True
        for h, s, frm in backs:
            for i in phis:
                if i.res != res:
                    continue
                for v, f2 in i.extra["inc"]:
                    if f2 == frm:
                        nv = self.val(s, v, i.ty, fn)
                        # D' = nv - init ; init = pv - D
                        D = s.hinit[res] if hasattr(s, "hinit") else None
                        if not s.facts.ge0(sub(X, sub(nv, self._init[id(h)][res]))):
                            return False
        return True

    def join(self, fn, L, phis, init, st, desc, mdesc, logs, classes, backs, order0):
        ch = False
        if not hasattr(self, "_init"):
            self._init = {}
        for h, s, frm in backs:
            self._init[id(h)] = init
            s._keep = h
        for i in phis:
            for h, s, frm in backs:
                for v, f2 in i.extra["inc"]:
                    if f2 != frm:
                        continue
                    nv = self.val(s, v, i.ty, fn)
                    if self.join1(desc[i.res], init[i.res], h.pv[i.res], nv, s, st, order0, i.ty):
                        ch = True
        for h, s, frm in backs:
            for cls, v in s.cver.items():
                if h.cver.get(cls) != v and cls not in classes:
                    classes.add(cls)
                    ch = True
        for h, s, frm in backs:
            keys = set(h.mem) | set(s.mem)
            for k in keys:
                b = k[0]
                if b[0] == "obj" and not self.known(st, b):
                    continue
                hv = h.mem.get(k)
                sv = s.mem.get(k)
                if hv is not None and sv is not None and hv[0] == sv[0]:
                    continue
                cls = (hv or sv)[1]
                if cls not in classes and sv is not None:
                    continue
                if any(self.new_atom(a, order0) for a in atoms_of(k[1])) or self.new_atom(b, order0):
                    continue
                if hv is None:
                    # stored in the body, not present at the header
                    if k in mdesc:
                        continue
                    if b[0] != "obj":
                        continue
                    tmp = st.fork()
                    ty = self.cls_ty(cls, sv[0])
                    iv = tmp.load_cell(b, k[1], cls, ty, None)
                else:
                    iv = st.mem.get(k, hv)[0] if k in st.mem else hv[0]
                    ty = self.cls_ty(cls, iv)
                if k not in mdesc:
                    if k[0][0] != "obj" and k not in st.mem:
                        continue
                    d0 = ["aff", "X", None] if ty.kind == "int" and self.counter_class(cls) else ["same"]
                    if ty.kind == "ptr" and k[0][0] == "obj" and sv is not None and hv is not None and \
                            st.heap.get(k[0], ("",))[0] == "stack" and s.split(sv[0])[0] is not None and \
                            s.split(sv[0])[0] == s.split(hv[0])[0] and s.facts.ge0(sub(sv[0], hv[0])):
                        d0 = ["aff", "X", None]
                    mdesc[k] = {"d": d0, "init": iv, "cls": cls, "ty": ty}
                    ch = True
                nv = sv[0] if sv is not None else None
                hval = hv[0] if hv is not None else iv
                d = mdesc[k]
                if nv is None:
                    w = ["iset", set(), False, 0] if d["ty"].kind == "int" else ["set", [], (None, False, False)]
                    if d["d"] != w:
                        d["d"][:] = w
                        ch = True
                    continue
                if self.join1(d["d"], d["init"], hval, nv, s, st, order0, d["ty"]):
                    ch = True
                    if d["d"][:2] == ["aff", "any"] and d["ty"].kind == "ptr":
                        d["d"][:] = ["set", [d["init"]], None]
                        self.join1(d["d"], d["init"], hval, nv, s, st, order0, d["ty"])
                    elif d["d"][:2] == ["aff", "any"]:
                        d["d"][:] = ["iset", set(), st.facts.ge0(d["init"]) and s.facts.ge0(nv), 0]
            for bs in set(h.log) | set(s.log):
                if h.log.get(bs, ()) != s.log.get(bs, ()) or h.bver.get(bs) != s.bver.get(bs):
                    if bs[0] == "obj" and not self.known(st, bs):
                        continue
                    if self.new_atom(bs, order0):
                        continue
                    if bs not in logs:
                        logs.add(bs)
                        ch = True
        return ch

    def known(self, st, obj):
        return obj in st.heap or (isinstance(obj[1], str) and obj[1].startswith("@"))

    def new_atom(self, at, order0):
        n = _order.get(at)
        return n is not None and n >= order0 and at[0] == "leaf"

    def cls_ty(self, cls, v):
        b = None
        for at, c in v.t:
            if self.is_ptr(at) and c == 1:
                return llir.PTR
        if cls[0] == "t":
            if cls[1] == "ptr":
                return llir.PTR
            if cls[1].startswith("i") and cls[1][1:].isdigit():
                return llir.INT(int(cls[1][1:]))
        if cls[0] == "f":
            s = self.prog.structs.get(cls[1])
            if s is not None:
                o = 0
                for n in range(len(s.fields)):
                    off, t = llir.field_offset(s, n)
                    if off == cls[2]:
                        while t.kind == "array":
                            t = t.elem
                        return t
        if cls[0] == "g":
            g = self.prog.globals.get(cls[1])
            if g is not None and g.ty.kind in ("int", "ptr"):
                return g.ty
        return llir.INT(64)

    def join1(self, d, ini, hv, nv, s, st, order0, ty):
        """Merges back-edge value nv into descriptor d (header value was hv). True if d changed."""
        if d[0] == "same":
            if nv == ini or s.facts.eq0(sub(nv, ini)):
                return False
            if ty.kind == "int":
                v = st.facts.values(ini, 300)
                nn = st.facts.ge0(ini)
                d[:] = ["iset", set(v) if v is not None and len(v) <= 256 else set(),
                        None if v is not None and len(v) <= 256 else nn, 0]
            else:
                d[:] = ["set", [ini], None]
            self.join1(d, ini, hv, nv, s, st, order0, ty)
            return True
        if d[0] == "iset":
            if d[2] is None:
                v = s.facts.values(nv, 300)
                if v is not None and v <= d[1]:
                    return False
                if v is not None and (not nv.t or d[3] < 12) and len(v | d[1]) <= 256:
                    d[1] |= v
                    d[3] += 1 if nv.t else 0
                    return True
                d[2] = s.facts.ge0(nv) and min(d[1]) >= 0
                return True
            if d[2] and not s.facts.ge0(nv):
                d[2] = False
                return True
            return False
        if d[0] == "aff":
            step = sub(nv, hv)
            mode = d[1]
            if mode == "X":
                if not step.t:
                    if step.c == 0:
                        pass
                    d[1], d[2] = "step", step.c
                elif s.facts.ge0(step):
                    d[1] = "up"
                elif s.facts.ge0(scale(step, -1)):
                    d[1] = "down"
                else:
                    d[1] = "any"
                return True
            if mode == "step":
                if not step.t and step.c == d[2]:
                    return False
                if (not step.t and step.c >= 0 or s.facts.ge0(step)) and d[2] >= 0:
                    d[1] = "up"
                elif (not step.t and step.c <= 0 or s.facts.ge0(scale(step, -1))) and d[2] <= 0:
                    d[1] = "down"
                else:
                    d[1] = "any"
                return True
            if mode == "up":
                if s.facts.ge0(step):
                    return False
                d[1] = "any"
                return True
            if mode == "down":
                if s.facts.ge0(scale(step, -1)):
                    return False
                d[1] = "any"
                return True
            return False
        # set
        if nv == hv and hv not in d[1]:
            return False          # the unknown part carried over
        for e in d[1]:
            if e == nv or (not e.t and not nv.t and e.c == nv.c):
                return False
        fresh = any(self.new_atom(a, order0) or (a[0] == "obj" and not self.known(st, a)) for a in atoms_of(nv))
        if not fresh and len(d[1]) < 8:
            # a known value
            if not (nv.t and d[2] is not None and d[2][0] is None and not d[2][2] and self._in_top(d[2], nv, s, ty)):
                d[1].append(nv)
                return True
            return False
        if d[2] is not None:
            tb, nn, de = d[2]
            ok_b = tb is None or s.split(nv)[0] == tb
            ok_n = not nn or self._nn(s, nv, tb, ty)
            ok_d = not de or single(nv) in self.dirents
            if ok_b and ok_n and ok_d:
                return False
            d[2] = (tb if ok_b else None, nn and ok_n and ok_b, de and ok_d)
            if not ok_b:
                d[2] = (None, ty.kind == "ptr" and s.isnull(nv) is False and tb is not None, False)
            return True
        if not fresh:
            # too many known values: widen to an unknown one
            vals = d[1] + [nv]
            d[1] = []
        else:
            keep = [e for e in d[1] if not e.t or all(a[0] == "obj" for a, _ in e.t)]
            vals = [e for e in d[1] if e not in keep] + [nv]
            d[1] = keep
        bases = {s.split(e)[0] for e in vals} if ty.kind == "ptr" else {None}
        tb = bases.pop() if len(bases) == 1 else None
        if tb is not None and (self.new_atom(tb, order0) or (tb[0] == "obj" and not self.known(st, tb))):
            tb = None
        nn = all(self._nn(s, e, tb, ty) for e in vals)
        d[2] = (tb, nn, all(single(e) in self.dirents for e in vals))
        return True

    def _in_top(self, top, nv, s, ty):
        return not top[1] or self._nn(s, nv, top[0], ty)

    def _nn(self, s, v, tb, ty):
        if tb is not None:
            return s.facts.ge0(sub(v, A(tb)))
        if ty.kind == "ptr":
            return s.isnull(v) is False
        return s.facts.ge0(v)


def _sxc(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def _init_refs(v):
    if v is None or not isinstance(v, tuple):
        return
    if v[0] == "glob":
        yield v[1]
    elif v[0] in ("array", "struct"):
        for e in v[1]:
            yield from _init_refs(e)
    elif v[0] == "gep":
        yield from _init_refs(v[2])
    elif v[0] == "cast":
        yield from _init_refs(v[2])


def const_at(prog, mod, ty, init, off, size):
    """The constant stored at a byte offset of an initialiser: int, ('addr', global, off), ('fn', f) or None."""
    if init is None or off < 0:
        return None
    k = init[0]
    if k == "zero":
        return 0 if off + size <= llir.sizeof(ty) else None
    if k == "undef":
        return 0
    if ty.kind == "array":
        es = llir.sizeof(ty.elem)
        n = off // es if es else 0
        if n >= ty.n:
            return None
        if k == "bytes":
            if size != 1:
                return None
            return init[1][n] if n < len(init[1]) else None
        if k == "array":
            return const_at(prog, mod, ty.elem, init[1][n], off - n * es, size)
        return None
    if ty.kind == "struct":
        if k != "struct":
            return None
        for n in range(len(ty.fields)):
            fo, ft = llir.field_offset(ty, n)
            if fo <= off < fo + llir.sizeof(ft):
                return const_at(prog, mod, ft, init[1][n], off - fo, size)
        return None
    if off != 0:
        return None
    if k == "int":
        return init[1]
    if k == "null":
        return 0
    if k == "glob":
        f = prog.func(mod, init[1])
        if f is not None and init[1] in mod.funcs:
            return ("fn", f.key)
        g = prog.glob(mod, init[1])
        return ("addr", g.key if g else init[1], 0)
    if k == "gep":
        g = const_at(prog, mod, llir.PTR, init[2], 0, 8)
        if isinstance(g, tuple) and g[0] == "addr":
            t, o = init[1], 0
            for n, ix in enumerate(init[3]):
                if ix[0] != "int":
                    return None
                if n == 0:
                    o += ix[1] * llir.sizeof(t)
                elif t.kind == "struct":
                    fo, t = llir.field_offset(t, ix[1])
                    o += fo
                else:
                    t = t.elem
                    o += ix[1] * llir.sizeof(t)
            return ("addr", g[1], g[2] + o)
    return None
