"""Reader for textual LLVM IR (the subset clang 18 emits for C at -O0 after mem2reg).

No execution takes place here: the reader turns a .ll file into Python objects (types, globals with
their initialisers, functions, blocks, instructions, source positions)."""
import re

TOK = re.compile(r'''
    \s+ | (?P<str>c?"(?:[^"\\]|\\.)*") | (?P<glob>@(?:[-a-zA-Z$._0-9]+|"[^"]*")) |
    (?P<loc>%(?:[-a-zA-Z$._0-9]+|"[^"]*")) | (?P<meta>![-a-zA-Z$._0-9]*) | (?P<attr>\#\d+) |
    (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+) | (?P<word>[a-zA-Z_.][-a-zA-Z0-9_.]*) |
    (?P<dots>\.\.\.) | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise ValueError("cannot tokenize: %r" % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


class Ty:
    __slots__ = ("kind", "bits", "elem", "n", "fields", "name", "packed")

    def __init__(self, kind, bits=0, elem=None, n=0, fields=None, name=None, packed=False):
        self.kind, self.bits, self.elem, self.n, self.fields, self.name = kind, bits, elem, n, fields, name
        self.packed = packed

    def __repr__(self):
        if self.kind == "int":
            return "i%d" % self.bits
        if self.kind == "array":
            return "[%d x %r]" % (self.n, self.elem)
        if self.kind == "struct":
            return "%%%s" % self.name if self.name else "{%s}" % ",".join(map(repr, self.fields))
        return self.kind


PTR, VOID, LABEL, METADATA, VARARG = Ty("ptr"), Ty("void"), Ty("label"), Ty("metadata"), Ty("...")
INTS = {}


def INT(b):
    if b not in INTS:
        INTS[b] = Ty("int", bits=b)
    return INTS[b]


def unq(s):
    s = s[1:]
    return s[1:-1] if s.startswith('"') else s


def cstr(tok):
    assert tok.startswith('c"')
    s = tok[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
                continue
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out += s[i].encode("utf-8")
            i += 1
    return bytes(out)


class Inst:
    __slots__ = ("op", "res", "ty", "ops", "extra", "line", "file", "fn", "block", "idx", "inl")

    def __init__(self, op):
        self.op, self.res, self.ty, self.ops, self.extra = op, None, VOID, [], {}
        self.line, self.file, self.fn, self.block, self.idx, self.inl = 0, None, None, None, 0, None

    def __repr__(self):
        return "<%s %s=%s>" % (self.fn.name if self.fn else "?", self.res, self.op)

    def loc(self):
        return "%s:%d" % (self.file or "?", self.line)


class Block:
    def __init__(self, name):
        self.name, self.insts, self.succ, self.pred = name, [], [], []


class Func:
    def __init__(self, name):
        self.name, self.args, self.blocks, self.order, self.ret = name, [], {}, [], VOID
        self.static, self.module, self.line, self.file, self.defined = False, None, 0, None, False
        self.vararg = False
        self.key = name

    def __repr__(self):
        return "<Func %s>" % self.key


class Global:
    def __init__(self, name):
        self.name, self.ty, self.init, self.const, self.static, self.module = name, None, None, False, False, None
        self.external = False
        self.line = 0
        self.key = name


# Operand: tuples ('loc', name) ('int', value, bits) ('null',) ('undef',) ('glob', name)
#          ('gep', basety, ptrop, [idx ops]) ('cast', op, operand, ty) ('fp', text) ('meta',)


class Parser:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise ValueError("expected %r got %r in %r" % (v, x, self.t))

    def end(self):
        return self.i >= len(self.t)

    def type(self):
        k, v = self.next()
        if k == "word":
            if v == "ptr":
                t = PTR
            elif v == "void":
                t = VOID
            elif v == "label":
                t = LABEL
            elif v == "metadata":
                t = METADATA
            elif re.match(r"i\d+$", v):
                t = INT(int(v[1:]))
            elif v in ("float", "double", "x86_fp80", "fp128", "half"):
                t = Ty("fp", bits={"float": 32, "double": 64, "half": 16}.get(v, 128))
            else:
                raise ValueError("type? %r" % v)
        elif k == "loc":
            t = self.mod.struct(unq(v))
        elif v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Ty("array", elem=e, n=n)
        elif v == "<":
            if self.peek()[1] == "{":
                self.next()
                t = Ty("struct", fields=self.fields(), packed=True)
                self.expect(">")
            else:
                n = int(self.next()[1])
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = Ty("array", elem=e, n=n)
        elif v == "{":
            t = Ty("struct", fields=self.fields())
        elif k == "dots":
            return VARARG
        else:
            raise ValueError("type? %r" % v)
        if self.peek()[1] == "(" and self._fnty():
            # function type used in a vararg call: skip the parameter list
            d = 0
            while True:
                x = self.next()[1]
                if x == "(":
                    d += 1
                elif x == ")":
                    d -= 1
                    if d == 0:
                        break
        return t

    def _fnty(self):
        """Whether the '(' at the cursor opens a parameter list of a function type: '(T, ...) @f'."""
        j, d = self.i, 0
        while j < len(self.t):
            v = self.t[j][1]
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1
                if d == 0:
                    return j + 1 < len(self.t) and self.t[j + 1][0] in ("glob", "loc")
            j += 1
        return False

    def fields(self):
        out = []
        if self.accept("}"):
            return out
        while True:
            out.append(self.type())
            if self.accept("}"):
                return out
            self.expect(",")

    ATTRS = {"noundef", "nonnull", "nocapture", "readonly", "writeonly", "readnone", "signext", "zeroext", "noalias",
             "returned", "inreg", "immarg", "dereferenceable", "align", "allocptr", "noundef", "sret", "byval",
             "dereferenceable_or_null", "range", "noreturn", "nounwind"}

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == "word" and v in self.ATTRS:
                self.next()
                if v == "align" and self.peek()[0] == "num":
                    self.next()
                if self.peek()[1] == "(":
                    d = 0
                    while True:
                        x = self.next()[1]
                        d += x == "("
                        d -= x == ")"
                        if d == 0:
                            break
            elif k == "attr":
                self.next()
            else:
                return

    def value(self, ty):
        k, v = self.next()
        if k == "loc":
            return ("loc", unq(v))
        if k == "glob":
            return ("glob", unq(v))
        if k == "num":
            if ty.kind == "fp":
                return ("fp", v)
            return ("int", int(v, 0), ty.bits)
        if k == "str":
            return ("bytes", cstr(v))
        if k == "word":
            if v == "null":
                return ("null",)
            if v in ("undef", "poison"):
                return ("undef",)
            if v == "zeroinitializer":
                return ("zero",)
            if v in ("true", "false"):
                return ("int", int(v == "true"), 1)
            if v == "getelementptr":
                self.accept("inbounds")
                self.expect("(")
                bt = self.type()
                self.expect(",")
                pt = self.type()
                p = self.value(pt)
                idx = []
                while self.accept(","):
                    self.accept("inrange")
                    it = self.type()
                    idx.append(self.value(it))
                self.expect(")")
                return ("gep", bt, p, idx)
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
                self.expect("(")
                t = self.type()
                p = self.value(t)
                self.expect("to")
                t2 = self.type()
                self.expect(")")
                return ("cast", v, p, t2)
            if v == "asm":
                while self.peek()[1] != "(":
                    self.next()
                return ("asm",)
            return ("word", v)
        if v == "[":
            out = []
            if self.accept("]"):
                return ("array", out)
            while True:
                t = self.type()
                out.append(self.value(t))
                if self.accept("]"):
                    return ("array", out)
                self.expect(",")
        if v == "{":
            out = []
            if self.accept("}"):
                return ("struct", out)
            while True:
                t = self.type()
                out.append(self.value(t))
                if self.accept("}"):
                    return ("struct", out)
                self.expect(",")
        if v == "<":
            x = self.value(ty)
            self.expect(">")
            return x
        if k == "meta":
            if self.peek()[1] == "(":
                d = 0
                while True:
                    x = self.next()[1]
                    d += x == "("
                    d -= x == ")"
                    if d == 0:
                        break
            return ("meta",)
        raise ValueError("value? %r %r" % (k, v))


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext",
        "fptrunc"}


class Module:
    def __init__(self, name):
        self.name, self.structs, self.globals, self.funcs, self.meta = name, {}, {}, {}, {}
        self._locs = {}

    def struct(self, name):
        if name not in self.structs:
            self.structs[name] = Ty("struct", name=name, fields=None)
        return self.structs[name]


def parse_module(text, name):
    m = Module(name)
    lines = text.split("\n")
    meta = {}
    i = 0
    pending = []  # (fn, inst, dbgid)
    n = len(lines)
    while i < n:
        ln = lines[i]
        if not ln or ln[0] == ";":
            i += 1
            continue
        if ln[0] == "%":
            lhs, rhs = ln.split(" = ", 1)
            st = m.struct(unq(lhs))
            p = Parser(tokenize(rhs), m)
            p.expect("type")
            if p.accept("opaque"):
                st.fields = []
            else:
                t = p.type()
                st.fields, st.packed = t.fields, t.packed
        elif ln[0] == "@":
            lhs, rhs = ln.split(" = ", 1)
            g = Global(unq(lhs))
            g.module = m
            p = Parser(tokenize(rhs), m)
            while True:
                k, v = p.next()
                if v in ("private", "internal"):
                    g.static = True
                elif v == "external":
                    g.external = True
                elif v == "global":
                    break
                elif v == "constant":
                    g.const = True
                    break
            g.ty = p.type()
            if not g.external:
                g.init = p.value(g.ty)
            while not p.end():
                if p.next()[1] == "!dbg":
                    g.line = p.next()[1]
            m.globals[g.name] = g
        elif ln.startswith("declare"):
            f = Func(_fname(ln))
            f.module = m
            p = Parser(tokenize(ln), m)
            f.vararg = "..." in ln
            m.funcs.setdefault(f.name, f)
        elif ln.startswith("define"):
            i = _parse_func(m, lines, i, pending)
        elif ln[0] == "!":
            a, _, b = ln.partition(" = ")
            meta[a] = b
        i += 1
    m.meta = meta
    _resolve_debug(m, pending)
    for st in m.structs.values():
        if st.fields is None:
            st.fields = []
    return m


def _fname(ln):
    mm = re.search(r'@([-a-zA-Z$._0-9]+|"[^"]*")\(', ln)
    return mm.group(1).strip('"')


def _parse_func(m, lines, i, pending):
    ln = lines[i]
    f = Func(_fname(ln))
    f.module, f.defined = m, True
    pre = ln[:ln.index("@")]
    f.static = " internal " in pre or " private " in pre
    p = Parser(tokenize(ln[ln.index("@"):]), m)
    p.next()
    p.expect("(")
    if not p.accept(")"):
        k = 0
        while True:
            t = p.type()
            if t is VARARG:
                f.vararg = True
            else:
                p.skip_attrs()
                nm = unq(p.next()[1]) if p.peek()[0] == "loc" else str(k)
                f.args.append((nm, t))
                k += 1
            if p.accept(")"):
                break
            p.expect(",")
    # return type: last type token before '@'
    rp = Parser([t for t in tokenize(pre) if t[1] not in ("define", "dso_local", "internal", "private", "noalias",
                                                           "noundef", "zeroext", "signext", "hidden", "linkonce_odr",
                                                           "weak", "available_externally", "nonnull")], m)
    try:
        f.ret = rp.type()
    except Exception:
        f.ret = VOID
    mm = re.search(r"!dbg (!\d+)", ln)
    f.line = mm.group(1) if mm else 0
    cur = None
    i += 1
    while lines[i] != "}":
        s = lines[i]
        if s and not s[0].isspace():
            if s[0] != ";":
                mm = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', s)
                cur = Block(mm.group(1).strip('"'))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
        elif s.strip() and not s.strip().startswith(";"):
            t = s.strip()
            while t.startswith("switch") and "]" not in t:
                i += 1
                t += " " + lines[i].strip()
            if cur is None:
                cur = Block("entry")
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            if "@llvm.dbg." not in t:
                ins = _parse_inst(m, f, t, pending)
                ins.block, ins.idx = cur, len(cur.insts)
                cur.insts.append(ins)
        i += 1
    for b in f.blocks.values():
        last = b.insts[-1]
        if last.op == "br":
            b.succ = list(dict.fromkeys(last.extra["targets"]))
        elif last.op == "switch":
            b.succ = list(dict.fromkeys([last.extra["default"]] + [c[1] for c in last.extra["cases"]]))
    for b in f.blocks.values():
        for s in b.succ:
            f.blocks[s].pred.append(b.name)
    m.funcs[f.name] = f
    return i


def _parse_inst(m, f, text, pending):
    toks = tokenize(text)
    # cut trailing metadata
    dbg = None
    for k in range(len(toks)):
        if toks[k][0] == "meta" and toks[k][1] == "!dbg":
            dbg = toks[k + 1][1]
            toks = toks[:k - 1] if toks[k - 1][1] == "," else toks[:k]
            break
        if toks[k][0] == "meta" and toks[k][1] != "!" and k > 0 and toks[k - 1][1] == ",":
            # e.g. ', !llvm.loop !5': look for a later !dbg first
            for j in range(k, len(toks)):
                if toks[j] == ("meta", "!dbg"):
                    dbg = toks[j + 1][1]
            toks = toks[:k - 1]
            break
    p = Parser(toks, m)
    res = None
    if p.peek()[0] == "loc" and p.peek(1)[1] == "=":
        res = unq(p.next()[1])
        p.next()
    k, op = p.next()
    while op in ("tail", "musttail", "notail"):
        k, op = p.next()
    ins = Inst(op)
    ins.res, ins.fn = res, f
    if dbg:
        pending.append((f, ins, dbg))
    if op == "alloca":
        ins.extra["ty"] = p.type()
        ins.ty = PTR
        while p.accept(","):
            if p.accept("align"):
                p.next()
            else:
                t = p.type()
                ins.extra["count"] = p.value(t)
    elif op == "load":
        p.accept("volatile")
        ins.ty = p.type()
        p.expect(",")
        t = p.type()
        ins.ops = [p.value(t)]
    elif op == "store":
        p.accept("volatile")
        t = p.type()
        v = p.value(t)
        p.expect(",")
        t2 = p.type()
        ins.ops = [v, p.value(t2)]
        ins.extra["ty"] = t
    elif op == "getelementptr":
        p.accept("inbounds")
        ins.extra["ty"] = p.type()
        p.expect(",")
        t = p.type()
        ins.ops = [p.value(t)]
        while p.accept(","):
            t = p.type()
            ins.ops.append(p.value(t))
        ins.ty = PTR
    elif op == "call":
        p.skip_attrs()
        while p.peek()[0] == "word" and p.peek()[1] in ("fastcc", "ccc", "noalias", "noundef", "zeroext", "signext"):
            p.next()
        p.skip_attrs()
        ins.ty = p.type()
        callee = p.value(PTR)
        p.expect("(")
        args, tys = [], []
        if not p.accept(")"):
            while True:
                t = p.type()
                p.skip_attrs()
                if t is METADATA:
                    v = p.value(t) if p.peek()[0] == "meta" else ("meta", p.type(), p.value(t))
                else:
                    v = p.value(t)
                args.append(v)
                tys.append(t)
                if p.accept(")"):
                    break
                p.expect(",")
        ins.extra["callee"] = callee
        ins.extra["tys"] = tys
        ins.ops = args
    elif op == "br":
        t = p.type()
        v = p.value(t)
        if t is LABEL:
            ins.extra["targets"] = [v[1]]
        else:
            ins.ops = [v]
            p.expect(",")
            p.type()
            a = p.value(LABEL)[1]
            p.expect(",")
            p.type()
            b = p.value(LABEL)[1]
            ins.extra["targets"] = [a, b]
    elif op == "switch":
        t = p.type()
        ins.ops = [p.value(t)]
        p.expect(",")
        p.type()
        ins.extra["default"] = p.value(LABEL)[1]
        p.expect("[")
        cases = []
        while not p.accept("]"):
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.type()
            cases.append((c[1], p.value(LABEL)[1]))
        ins.extra["cases"] = cases
    elif op == "ret":
        t = p.type()
        if t is not VOID:
            ins.ops = [p.value(t)]
            ins.extra["ty"] = t
    elif op == "unreachable":
        pass
    elif op in ("icmp", "fcmp"):
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        ins.ops, ins.ty = [a, b], INT(1)
        ins.extra["pred"], ins.extra["ty"] = pred, t
    elif op in BIN:
        while p.peek()[1] in ("nsw", "nuw", "exact", "disjoint", "fast"):
            ins.extra[p.next()[1]] = True
        t = p.type()
        a = p.value(t)
        p.expect(",")
        ins.ops, ins.ty = [a, p.value(t)], t
    elif op in CAST:
        while p.peek()[1] in ("nneg", "nuw", "nsw"):
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect("to")
        ins.ty = p.type()
        ins.ops = [a]
        ins.extra["from"] = t
    elif op == "select":
        t = p.type()
        c = p.value(t)
        p.expect(",")
        t = p.type()
        a = p.value(t)
        p.expect(",")
        p.type()
        b = p.value(t)
        ins.ops, ins.ty = [c, a, b], t
    elif op == "phi":
        ins.ty = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(ins.ty)
            p.expect(",")
            b = unq(p.next()[1])
            p.expect("]")
            inc.append((v, b))
            if not p.accept(","):
                break
        ins.extra["inc"] = inc
    elif op == "freeze":
        t = p.type()
        ins.ops, ins.ty = [p.value(t)], t
    elif op in ("extractvalue", "insertvalue", "va_arg", "fneg", "fence", "atomicrmw", "cmpxchg"):
        ins.extra["raw"] = text
        ins.ty = Ty("other")
    else:
        raise ValueError("instruction? %s" % text)
    return ins


def _resolve_debug(m, pending):
    meta = m.meta
    files = {}

    def fileof(sid, depth=0):
        if sid in files:
            return files[sid]
        s = meta.get(sid, "")
        r = None
        mm = re.search(r"file: (!\d+)", s)
        if mm:
            fm = re.search(r'filename: "([^"]*)"', meta.get(mm.group(1), ""))
            r = fm.group(1) if fm else None
        if r is None and depth < 20:
            mm = re.search(r"scope: (!\d+)", s)
            if mm:
                r = fileof(mm.group(1), depth + 1)
        files[sid] = r
        return r

    cache = {}
    for f, ins, d in pending:
        if d not in cache:
            s = meta.get(d, "")
            l = re.search(r"line: (\d+)", s)
            sc = re.search(r"scope: (!\d+)", s)
            cache[d] = (int(l.group(1)) if l else 0, fileof(sc.group(1)) if sc else None)
        ins.line, ins.file = cache[d]
    for f in m.funcs.values():
        if f.defined and isinstance(f.line, str):
            s = meta.get(f.line, "")
            sid = f.line
            l = re.search(r"line: (\d+)", s)
            f.file = fileof(sid)
            f.line = int(l.group(1)) if l else 0
    for g in m.globals.values():
        if isinstance(g.line, str):
            s = meta.get(g.line, "")
            mm = re.search(r"var: (!\d+)", s)
            s = meta.get(mm.group(1), "") if mm else s
            l = re.search(r"line: (\d+)", s)
            g.line = int(l.group(1)) if l else 0
    # struct field names from debug info
    m.fieldnames = {}
    named = {}
    for k, s in meta.items():
        if "!DICompositeType(tag: DW_TAG_structure_type" in s or "!DICompositeType(tag: DW_TAG_union_type" in s:
            nm = re.search(r'name: "([^"]*)"', s)
            el = re.search(r"elements: (!\d+)", s)
            named[k] = (nm.group(1) if nm else None, el.group(1) if el else None)
    for k, s in meta.items():
        if "!DIDerivedType(tag: DW_TAG_typedef" in s:
            nm = re.search(r'name: "([^"]*)"', s)
            bt = re.search(r"baseType: (!\d+)", s)
            if bt and bt.group(1) in named and named[bt.group(1)][0] is None and nm:
                named[bt.group(1)] = (nm.group(1), named[bt.group(1)][1])
    for k, (nm, el) in named.items():
        if not nm or not el:
            continue
        out = {}
        for e in re.findall(r"!\d+", meta.get(el, "")):
            s = meta.get(e, "")
            fn = re.search(r'name: "([^"]*)"', s)
            off = re.search(r"offset: (\d+)", s)
            if fn:
                out[(int(off.group(1)) if off else 0) // 8] = fn.group(1)
        m.fieldnames[nm] = out


def sizeof(t):
    if t.kind == "int":
        return max(1, (t.bits + 7) // 8)
    if t.kind == "ptr":
        return 8
    if t.kind == "array":
        return t.n * sizeof(t.elem)
    if t.kind == "struct":
        off, al = 0, 1
        for f in t.fields or []:
            a = 1 if t.packed else alignof(f)
            off = (off + a - 1) // a * a + sizeof(f)
            al = max(al, a)
        return (off + al - 1) // al * al
    if t.kind == "fp":
        return max(2, t.bits // 8)
    return 0


def alignof(t):
    if t.kind == "int":
        s = sizeof(t)
        return s if s in (1, 2, 4, 8) else 8
    if t.kind == "ptr":
        return 8
    if t.kind == "array":
        return alignof(t.elem)
    if t.kind == "struct":
        return 1 if t.packed else max([alignof(f) for f in t.fields or []] or [1])
    return max(1, min(16, sizeof(t)))


def field_offset(t, idx):
    off = 0
    for k, f in enumerate(t.fields):
        a = 1 if t.packed else alignof(f)
        off = (off + a - 1) // a * a
        if k == idx:
            return off, f
        off += sizeof(f)
    raise IndexError
