"""Abstract models of the C library functions the program (or a plausible edit of it) calls.

Each model maps (engine, state, call, args, name) to the possible (state, return value) pairs.
Anything not listed is treated by `unknown`: an arbitrary result and arbitrary contents of the
character data it is handed."""
import llir
from engine import BYTES, INF, MODES, norm
from terms import *  # noqa: F401,F403

CTYPE = {"isalnum", "isalpha", "isascii", "isblank", "iscntrl", "isdigit", "isgraph", "islower", "isprint", "ispunct",
         "isspace", "isupper", "isxdigit"}
EXTERNAL_STRUCTS = {"stat", "dirent", "option", "timespec", "_IO_FILE", "__dirstream", "passwd"}

READONLY_ARGS = {"strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strchr", "strrchr", "strstr", "memcmp",
                 "strdup", "strndup", "printf", "fprintf", "puts", "fputs", "fputc", "putchar", "fwrite", "perror",
                 "fopen", "opendir", "lstat", "stat", "fstat", "getenv", "rename", "atoi", "setlocale",
                 "strcspn", "strspn", "strpbrk", "memchr", "strcpy", "getopt_long", "sscanf", "__isoc99_sscanf",
                 "snprintf", "strtol", "strtoul", "unlink", "access", "remove", "mkdir", "open", "parse_config_file"}
PURE = {"strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strchr", "strrchr", "strstr", "memcmp", "tolower",
        "toupper"} | CTYPE
# external function -> indexes of the pointer arguments whose target it may write
WRITES = {"strcpy": (0,), "strncpy": (0,), "strcat": (0,), "strncat": (0,), "stpcpy": (0,), "memcpy": (0,),
          "memmove": (0,), "memset": (0,), "snprintf": (0,), "sprintf": (0,), "fgets": (0,), "fread": (0,),
          "__isoc99_sscanf": (2, 3, 4, 5), "sscanf": (2, 3, 4, 5), "lstat": (1,), "stat": (1,), "strtol": (1,),
          "llvm.memcpy.p0.p0.i64": (0,), "llvm.memset.p0.i64": (0,), "llvm.memmove.p0.p0.i64": (0,), "read": (1,),
          "getline": (0, 1), "strtok": (0,), "__xpg_basename": (), "realloc": ()}
FRESH = {"malloc", "calloc", "realloc", "strdup", "strndup", "wrapped_malloc", "wrapped_strdup", "opendir", "fopen"}
RET_ARG = {"strcpy": 0, "strncpy": 0, "strcat": 0, "strncat": 0, "memcpy": 0, "memmove": 0, "memset": 0, "strchr": 0,
           "strrchr": 0, "strstr": 0, "fgets": 0, "memchr": 0, "strpbrk": 0}
# calls that change the file system (fopen and open are judged by their mode)
FS_MUTATORS = {"rename", "renameat", "renameat2", "unlink", "unlinkat", "remove", "rmdir", "mkdir", "mkdirat", "creat",
               "link", "linkat", "symlink", "symlinkat", "truncate", "ftruncate", "chmod", "fchmod", "fchmodat", "chown",
               "fchown", "lchown", "fchownat", "mknod", "mknodat", "mkfifo", "mkfifoat", "utime", "utimes", "utimensat",
               "futimens", "futimes", "lutimes", "setxattr", "lsetxattr", "fsetxattr", "removexattr", "mkstemp",
               "mkdtemp", "mkostemp", "tmpfile", "tempnam", "freopen", "system", "popen", "execl", "execlp", "execle",
               "execv", "execve", "execvp", "posix_spawn", "posix_spawnp", "mount", "umount", "pwrite", "copy_file_range",
               "sendfile", "syscall", "open", "openat", "fopen", "write", "fallocate", "posix_fallocate"}
# of those, the ones that only mutate depending on their arguments
BY_MODE = {"fopen", "open", "openat", "write"}
HANDLE_FUNCS = {"opendir", "fdopendir", "fopen", "fdopen", "popen", "tmpfile"}

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


# ---------------------------------------------------------------- helpers

def content(eng, st, p):
    b, o = st.split(p)
    if b is None:
        return None
    return st.content(b, o)


def zero_bound(st, p):
    """An upper bound on the length of the string at p whose text is not known: a null byte written at or after p."""
    b, o = st.split(p)
    if b is None:
        return None
    f, later = st.facts, []
    for (off, kind, data, term, total) in reversed(st.log.get(b, ())):
        z = off if kind == "b" and data == K(0) else add(off, total) if kind == "S" and term and total is not None else None
        if z is not None and f.ge0(sub(z, o)) and all(k2 == "b" and (f.ne0(sub(o2, z)) or d2 == K(0))
                                                      for o2, k2, d2 in later):
            return sub(z, o)
        later.append((off, kind, data))
    return None


def content_or(eng, st, p):
    c = content(eng, st, p)
    if c is None:
        c = (("unk", eng.fresh_id()),)
        z = zero_bound(st, p)
        if z is not None:
            st.addge(sub(z, st.plen(c)))
    return c


def contents(eng, st, args):
    r = {}
    for k, a in enumerate(args):
        b, o = st.split(a)
        if b is not None and b[0] != "fn":
            c = st.content(b, o)
            if c is not None:
                r[k] = c
    return r


def literal(parts):
    if parts is None:
        return None
    if parts == ():
        return b""
    if len(parts) == 1 and parts[0][0] == "lit":
        return parts[0][1]
    return None


def needs(eng, st, i, name, args, idx):
    """Pointer arguments a call dereferences: null is an event, and is excluded afterwards."""
    for k in idx:
        if k >= len(args):
            continue
        n = st.isnull(args[k])
        if n is True:
            st.event("null", name, args, None, i, arg=k)
            return False
        if n is None:
            st.event("maybe-null", name, (args[k],), None, i, arg=k)
            if not st.assume_cmp("ne", args[k], K(0), 64):
                return False
        b, o = st.split(args[k])
        if b is not None:
            h = st.heap.get(b)
            if h and h[0] in ("freed", "maybe-freed"):
                st.event("use-after-free", name, (args[k],), None, i, status=h[0])
            h = st.handles.get(b)
            if h and h[0] == "closed" and name not in ("fclose", "closedir", "pclose"):
                st.event("use-after-close", name, (args[k],), None, i)
    return True


def errno_touch(st):
    for k in [k for k in st.mem if k[0] == ("obj", "errno")]:
        del st.mem[k]


def ret_leaf(eng, i, name, **kw):
    if i.ty.kind == "void":
        return K(0)
    w = i.ty.bits if i.ty.kind == "int" else 64
    return A(eng.leaf("ret", w, name, ptr=i.ty.kind == "ptr", **kw))


def call_event(eng, st, i, name, args, rv, strs=None, **x):
    return st.event("call", name, args, rv, i, strs=contents(eng, st, args) if strs is None else strs, **x)


def unknown(eng, st, i, args, name):
    strs = contents(eng, st, args)
    for a in args:
        st.escape(a)
        b, o = st.split(a)
        if b is not None and b[0] != "fn" and name not in READONLY_ARGS and not _const_obj(eng, b):
            st.havoc_str(b)
            for k in [k for k in st.mem if k[0] == b]:
                del st.mem[k]
    errno_touch(st)
    if name in FS_MUTATORS:
        st.fs = eng.epoch(st, i, tuple(sorted(strs.items())))
        rv = ret_leaf(eng, i, name)
        st.event("fs", name, args, rv, i, strs=strs, mem=dict(st.mem))
        return [(st, rv)]
    rv = ret_leaf(eng, i, name)
    st.event("call", name, args, rv, i, strs=strs, external=True)
    return [(st, rv)]


def _const_obj(eng, b):
    if b[0] == "obj" and isinstance(b[1], str) and b[1].startswith("@"):
        g = eng.prog.globals.get(b[1][1:])
        return g is not None and g.const
    return False


# ---------------------------------------------------------------- strings: reading

@model("strlen", "strnlen")
def m_strlen(eng, st, i, args, name):
    if not needs(eng, st, i, name, args, (0,)):
        return []
    st.event("read", name, (args[0],), None, i)
    c = content(eng, st, args[0])
    b, o = st.split(args[0])
    if c is None:
        key = ("slen", args[0], st.bver.get(b, 0), len(st.log.get(b, ())))
        at = ("leaf", "size", key, 64)
        n = A(at)
        z = zero_bound(st, args[0])
        if z is not None:
            st.addge(sub(z, n))
    else:
        n = st.plen(c)
    if name == "strnlen":
        r = A(eng.leaf("size", 64))
        st.addge(sub(n, r))
        st.addge(sub(args[1], r))
        return [(st, r)]
    return [(st, n)]


def cmp_op(eng, st, i, args, name):
    if not needs(eng, st, i, name, args, (0, 1)):
        return []
    st.event("read", name, (args[0],), None, i)
    st.event("read", name, (args[1],), None, i)
    x, y = content_or(eng, st, args[0]), content_or(eng, st, args[1])
    extra = tuple(args[2:])
    if x == y:
        r = K(0)
    else:
        lx, ly = literal(x), literal(y)
        if lx is not None and ly is not None and not any(e.t for e in extra):
            a, b = lx, ly
            if name in ("strncmp", "strncasecmp"):
                a, b = a[:extra[0].c], b[:extra[0].c]
            if "case" in name:
                a, b = a.lower(), b.lower()
            r = K((a > b) - (a < b))
        else:
            r = A(("op", name, 32, 32, ("S", x), ("S", y)) + extra)
    call_event(eng, st, i, name, args, r, strs={0: x, 1: y})
    return [(st, r)]


for n in ("strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "strcoll"):
    MODELS[n] = cmp_op


def slash_free(eng, st, p, ch):
    """Whether piece p certainly holds no byte ch."""
    f = st.facts
    if p[0] == "lit":
        return ch not in p[1]
    if p[0] == "byte":
        v = f.values(p[1])
        return v is not None and ch not in v
    if p[0] in ("src", "sub"):
        base, off, ver = p[1], p[2], (p[3] if p[0] == "src" else p[4])
        if ch == 47 and base in eng.noslash:
            return True
        for (b2, o2, v2, n2, c2) in st.noc:
            # no c2 in [o2, o2 + n2) of (b2, v2); n2 None: to the end
            if b2 == base and v2 == ver and c2 == ch and f.ge0(sub(off, o2)):
                if n2 is None:
                    return True
                if p[0] == "sub" and f.ge0(sub(add(o2, n2), add(off, p[3]))):
                    return True
        return False
    if p[0] == "fmt":
        return ch == 47 and p[1][-1:] in ("d", "i", "u", "x", "X", "o")
    return False


def has_noc(eng, st_or_facts, parts, ch, st=None):
    return all(slash_free(eng, st or st_or_facts, p, ch) for p in parts)


def set_noc(st, p, ch):
    if p[0] == "src":
        st.noc = st.noc | {(p[1], p[2], p[3], None, ch)}
    elif p[0] == "sub":
        st.noc = st.noc | {(p[1], p[2], p[4], p[3], ch)}
    elif p[0] == "byte":
        v = st.facts.domof(single(p[1])) if single(p[1]) else None
        if v is not None:
            if v == {ch}:
                return False
            st.setdom(single(p[1]), v - {ch})
    st._facts = None
    return True


def m_chr(eng, st, i, args, name):
    if not needs(eng, st, i, name, args, (0,)):
        return []
    st.event("read", name, (args[0],), None, i)
    p, c = args[0], args[1]
    b, o = st.split(p)
    parts = content(eng, st, p)
    f = st.facts
    lit = literal(parts)
    at = single(c)
    if at is not None and at[0] == "op" and at[1] in ("sext", "zext") and at[3] == 8:
        c = at[4]
        at = single(c)
    res = []
    if lit is not None and c.t:
        d = f.values(c, 300)
        if d is not None:
            s = lit + b"\0"
            seen = set()
            order = range(len(s)) if name == "strchr" else range(len(s) - 1, -1, -1)
            for k in order:
                ch = s[k]
                if ch in seen:
                    continue
                seen.add(ch)
                vals = {v & 255 for v in d}
                if ch not in vals:
                    continue
                s2 = st.fork()
                if s2.assume_cmp("eq", c, K(ch), 8):
                    res.append((s2, addc(p, k)))
            rest = st.fork()
            ok = True
            for ch in seen:
                if not rest.assume_cmp("ne", c, K(ch), 8):
                    ok = False
                    break
            if ok:
                res.append((rest, K(0)))
            return res
    if not c.t:
        ch = c.c & 255
        if ch == 0:
            n = st.plen(parts) if parts is not None else None
            if n is None:
                n = A(eng.leaf("size", 64))
                z = zero_bound(st, p)
                if z is not None:
                    st.addge(sub(z, n))
            return [(st, add(p, n))]
        if parts is not None:
            seq = list(parts)
            if name == "strrchr":
                k = len(seq) - 1
                while k >= 0 and slash_free(eng, st, seq[k], ch):
                    k -= 1
                if k < 0:
                    return [(st, K(0))]
                pre = st.plen(tuple(seq[:k]))
                q = seq[k]
                if q[0] == "lit":
                    return [(st, add(p, addc(pre, q[1].rfind(bytes([ch])))))]
                return _search(eng, st, p, b, seq, k, pre, q, ch, True)
            k = 0
            while k < len(seq) and slash_free(eng, st, seq[k], ch):
                k += 1
            if k == len(seq):
                return [(st, K(0))]
            pre = st.plen(tuple(seq[:k]))
            q = seq[k]
            if q[0] == "lit":
                return [(st, add(p, addc(pre, q[1].find(bytes([ch])))))]
            return _search(eng, st, p, b, seq, k, pre, q, ch, False)
    # nothing known
    s2 = st.fork()
    idx = A(eng.leaf("off", 64, name))
    if parts is not None:
        s2.addge(addc(sub(s2.plen(parts), idx), -1))
    else:
        z = zero_bound(st, p)
        if z is not None:
            s2.addge(addc(sub(z, idx), -1))
    return [(s2, add(p, idx)), (st, K(0))]


def _search(eng, st, p, b, seq, k, pre, q, ch, last):
    """First/last occurrence of ch may be in piece q (index k), or elsewhere, or nowhere."""
    res = []
    # in this piece
    s2 = st.fork()
    if q[0] == "byte":
        if s2.assume_cmp("eq", q[1], K(ch), 8):
            res.append((s2, add(p, pre)))
    elif q[0] in ("src", "sub"):
        at = eng.leaf("off", 64, "chr")
        idx = A(at)
        n = s2.plen((q,))
        ver = q[3] if q[0] == "src" else q[4]
        ok = s2.addge(addc(sub(n, idx), -1))
        if ok:
            bt = single(s2.src_byte(q[1], add(q[2], idx), ver))
            if bt is not None:
                ok = s2.set_byte(bt, {ch})
        if ok:
            if last:
                o2 = add(q[2], addc(idx, 1))
                s2.noc = s2.noc | {(q[1], o2, ver, None if q[0] == "src" else sub(n, addc(idx, 1)), ch)}
            else:
                s2.noc = s2.noc | {(q[1], q[2], ver, idx, ch)}
            s2._facts = None
            res.append((s2, add(add(p, pre), idx)))
    else:
        at = eng.leaf("off", 64, "chr")
        s2.addge(addc(sub(s2.plen((q,)), A(at)), -1))
        res.append((s2, add(add(p, pre), A(at))))
    # not in this piece
    s3 = st.fork()
    if set_noc(s3, q, ch) is False:
        return res
    rest = seq[:k] if last else seq[k + 1:]
    if not rest:
        res.append((s3, K(0)))
        return res
    kk = len(rest) - 1 if last else 0
    rng = range(len(rest) - 1, -1, -1) if last else range(len(rest))
    for kk in rng:
        if not slash_free(eng, s3, rest[kk], ch):
            ab = kk if last else k + 1 + kk
            pre2 = s3.plen(tuple(seq[:ab]))
            qq = seq[ab]
            if qq[0] == "lit":
                x = qq[1].rfind(bytes([ch])) if last else qq[1].find(bytes([ch]))
                return res + [(s3, add(p, addc(pre2, x)))]
            return res + _search(eng, s3, p, b, seq[:ab + 1] if last else seq, ab, pre2, qq, ch, last)
    res.append((s3, K(0)))
    return res


MODELS["strchr"] = m_chr
MODELS["strrchr"] = m_chr
MODELS["index"] = m_chr
MODELS["rindex"] = m_chr


@model("strchrnul")
def m_chrnul(eng, st, i, args, name):
    out = []
    for s, r in m_chr(eng, st, i, args, "strchr"):
        if r == K(0):
            c = content(eng, s, args[0])
            n = s.plen(c) if c is not None else A(eng.leaf("size", 64))
            out.append((s, add(args[0], n)))
        else:
            out.append((s, r))
    return out


@model("strstr", "strpbrk", "memchr", "strcasestr")
def m_strstr(eng, st, i, args, name):
    if not needs(eng, st, i, name, args, (0, 1) if name != "memchr" else (0,)):
        return []
    c = content(eng, st, args[0])
    s2 = st.fork()
    idx = A(eng.leaf("off", 64, name))
    if c is not None:
        s2.addge(sub(s2.plen(c), idx))
    elif name == "memchr":
        s2.addge(addc(sub(args[2], idx), -1))
    rv = add(args[0], idx)
    call_event(eng, s2, i, name, args, rv)
    call_event(eng, st, i, name, args, K(0))
    return [(s2, rv), (st, K(0))]


@model("strspn", "strcspn")
def m_spn(eng, st, i, args, name):
    if not needs(eng, st, i, name, args, (0, 1)):
        return []
    c = content(eng, st, args[0])
    lit = literal(content(eng, st, args[1]))
    if name == "strcspn" and lit is not None and len(lit) == 1:
        out = []
        for s, r in m_chr(eng, st, i, (args[0], K(lit[0])), "strchr"):
            if r == K(0):
                cc = content(eng, s, args[0])
                out.append((s, s.plen(cc) if cc is not None else A(eng.leaf("size", 64))))
            else:
                out.append((s, sub(r, args[0])))
        return out
    idx = A(eng.leaf("off", 64, name))
    if c is not None:
        st.addge(sub(st.plen(c), idx))
        # leading bytes
        p = c[0] if c else None
    return [(st, idx)]


@model("atoi", "atol")
def m_atoi(eng, st, i, args, name):
    if not needs(eng, st, i, name, args, (0,)):
        return []
    rv = ret_leaf(eng, i, name)
    call_event(eng, st, i, name, args, rv)
    return [(st, rv)]


@model("strtol", "strtoul", "strtoll", "strtoull")
def m_strtol(eng, st, i, args, name):
    if not needs(eng, st, i, name, args, (0,)):
        return []
    c = content(eng, st, args[0])
    rv = None
    if c is not None and not args[2].t:
        bs = []
        for p in c:
            if p[0] == "byte":
                bs.append(p[1])
            elif p[0] == "lit":
                bs += [K(x) for x in p[1]]
            elif p[0] == "sub" and not p[3].t:
                bs += [st.src_byte(p[1], addc(p[2], k), p[4]) for k in range(p[3].c)]
            else:
                bs = None
                break
        if bs is not None and 0 < len(bs) <= 4:
            rv = A(("op", "strtol", 64, 64, args[2]) + tuple(bs))
    if rv is None:
        rv = ret_leaf(eng, i, name)
    b, o = st.split(args[1])
    if b is not None:
        idx = A(eng.leaf("off", 64, "end"))
        if c is not None:
            st.addge(sub(st.plen(c), idx))
        st.store_cell(b, o, ("t", "ptr"), add(args[0], idx), 8)
    call_event(eng, st, i, name, args, rv)
    return [(st, rv)]


def m_ctype(eng, st, i, args, name):
    st.event("ctype", name, args, None, i)
    return [(st, eng.mkop(st, name, 32, 32, args[0]))]


for n in CTYPE | {"tolower", "toupper"}:
    MODELS[n] = m_ctype


# ---------------------------------------------------------------- strings: writing

def put(eng, st, i, name, dst, parts, term, extra=None):
    """Writes parts at dst; records the write for the bounds checks."""
    b, o = st.split(dst)
    n = st.plen(parts) if parts is not None else None
    tot = None if n is None else (addc(n, 1) if term else n)
    st.event("write", name, (dst, tot if tot is not None else A(eng.leaf("size", 64))), None, i, parts=parts,
             exact=tot is not None)
    if b is None:
        st.event("wild", name, (dst,), None, i)
        return
    if parts is None:
        st.havoc_str(b)
    else:
        st.write_str(b, o, parts, term, n)


@model("strcpy", "stpcpy")
def m_strcpy(eng, st, i, args, name):
    if not needs(eng, st, i, name, args, (0, 1)):
        return []
    c = content_or(eng, st, args[1])
    put(eng, st, i, name, args[0], c, True)
    return [(st, args[0] if name == "strcpy" else add(args[0], st.plen(c)))]


@model("strcat", "strncat")
def m_strcat(eng, st, i, args, name):
    if not needs(eng, st, i, name, args, (0, 1)):
        return []
    d = content_or(eng, st, args[0])
    c = content_or(eng, st, args[1])
    at = add(args[0], st.plen(d))
    if name == "strcat":
        put(eng, st, i, name, at, c, True)
        return [(st, args[0])]
    out = []
    n = st.plen(c)
    s2 = st.fork()
    if s2.addge(sub(args[2], n)):
        put(eng, s2, i, name, at, c, True)
        out.append((s2, args[0]))
    if st.addge(addc(sub(n, args[2]), -1)):
        put(eng, st, i, name, at, st.head(c, args[2]), True)
        out.append((st, args[0]))
    return out


@model("strncpy", "stpncpy")
def m_strncpy(eng, st, i, args, name):
    if not needs(eng, st, i, name, args, (0, 1)):
        return []
    c = content_or(eng, st, args[1])
    n = st.plen(c)
    out = []
    s2 = st.fork()
    if s2.addge(sub(n, args[2])):            # no terminator is written
        if args[2] != K(0):
            put(eng, s2, i, name, args[0], s2.head(c, args[2]), False)
        out.append((s2, args[0]))
    if st.addge(addc(sub(args[2], n), -1)):
        st.event("write", name, (args[0], args[2]), None, i, parts=c, exact=True)
        b, o = st.split(args[0])
        if b is not None:
            st.write_str(b, o, c, True, n)
        out.append((st, args[0]))
    return out


@model("memcpy", "memmove", "mempcpy")
def m_memcpy(eng, st, i, args, name):
    n = args[2]
    if n == K(0):
        return [(st, args[0])]
    if not needs(eng, st, i, name, args, (0, 1)):
        return []
    ret = args[0] if name != "mempcpy" else add(args[0], n)
    db, do = st.split(args[0])
    sb, so = st.split(args[1])
    st.event("write", name, (args[0], n), None, i, parts=None, exact=True)
    st.event("read", name, (args[1], n), None, i)
    if db is None:
        return [(st, ret)]
    # typed cells
    cells = [(k, v) for k, v in st.mem.items() if k[0] == sb] if sb is not None else []
    for k in [k for k in st.mem if k[0] == db]:
        del st.mem[k]
    typed = False
    for (b, o), (v, cls) in cells:
        d = sub(o, so)
        if not d.t and not n.t and 0 <= d.c < n.c:
            st.mem[(db, add(do, d))] = (v, cls)
            typed = True
    c = st.content(sb, so) if sb is not None else None
    f = st.facts
    if c is not None and not typed:
        ln = st.plen(c)
        f = st.facts
        d = sub(n, ln)
        if f.eq0(addc(d, -1)):
            st.write_str(db, do, c, True, ln)
            return [(st, ret)]
        if f.ge0(scale(d, -1)):
            h = st.head(c, n)
            st.write_str(db, do, h, False, n)
            return [(st, ret)]
        s2 = st.fork()
        out = []
        if s2.addge(scale(d, -1)):
            s2.write_str(db, do, s2.head(c, n), False, n)
            out.append((s2, ret))
        if st.addge(addc(d, -1)):
            st.write_str(db, do, c, True, ln)
            out.append((st, ret))
        return out
    st.havoc_str(db)
    if typed:
        fl = st.fillof(sb)
        if fl in ("zero", "undef"):
            st.fill[db] = fl
    return [(st, ret)]


@model("memset", "bzero")
def m_memset(eng, st, i, args, name):
    if name == "bzero":
        args = (args[0], K(0), args[1])
    n = args[2]
    if n == K(0):
        return [(st, args[0])]
    if not needs(eng, st, i, name, args, (0,)):
        return []
    st.event("write", name, (args[0], n), None, i, parts=None, exact=True)
    b, o = st.split(args[0])
    if b is None:
        return [(st, args[0])]
    size = eng.objs.get(b[1], {}).get("size") if b[0] == "obj" else None
    whole = o == K(0) and (size is None or st.facts.ge0(sub(n, size)))
    for k in [k for k in st.mem if k[0] == b]:
        d = sub(k[1], o)
        if whole or d.t or n.t or 0 <= d.c < n.c:
            del st.mem[k]
    if args[1] == K(0) and whole:
        st.fill[b] = "zero"
        st.log[b] = ()
        st.bver[b] = eng.fresh_id()
    elif args[1] == K(0):
        st.log[b] = st.log.get(b, ()) + ((o, "b", K(0), None, None),)
        if n != K(1):
            f = st.fillof(b)
            if f != "zero":
                st.havoc_str(b)
                st.log[b] = ((o, "b", K(0), None, None),)
    else:
        st.havoc_str(b)
    return [(st, args[0])]


FMT = None


def parse_format(fmt):
    """[(text) or (spec, conv)] of a printf format; None if it is not understood."""
    import re
    out = []
    pos = 0
    for m in re.finditer(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([diouxXcsp%])", fmt):
        if "%" in fmt[pos:m.start()]:
            return None
        if m.start() > pos:
            out.append(("lit", fmt[pos:m.start()]))
        out.append(("conv", m.group(0), m.group(2), m.group(3), m.group(5)))
        pos = m.end()
    if "%" in fmt[pos:]:
        return None
    if pos < len(fmt):
        out.append(("lit", fmt[pos:]))
    return out


def render(eng, st, i, name, fmt_arg, rest):
    """The text a printf-like call produces, as parts."""
    f = literal(content(eng, st, fmt_arg))
    if f is None:
        return (("unk", eng.fresh_id()),), None
    sp = parse_format(f.decode("latin-1"))
    if sp is None:
        return (("unk", eng.fresh_id()),), f
    out, k = [], 0
    for s in sp:
        if s[0] == "lit":
            out.append(("lit", s[1].encode("latin-1")))
            continue
        _, text, width, prec, conv = s
        if conv == "%":
            out.append(("lit", b"%"))
            continue
        pa = None
        if width == "*":
            k += 1
        if prec == "*":
            pa = rest[k] if k < len(rest) else None
            k += 1
        elif prec is not None:
            pa = K(int(prec))
        if k >= len(rest):
            return (("unk", eng.fresh_id()),), f
        a = rest[k]
        k += 1
        if conv == "s" and width is None:
            n = st.isnull(a)
            if n is not False:
                st.event("maybe-null" if n is None else "null", name, (a,), None, i, arg="%s")
                if n is True:
                    out.append(("lit", b"(null)"))
                    continue
            b, o = st.split(a)
            if b is not None:
                h = st.heap.get(b)
                if h and h[0] in ("freed", "maybe-freed"):
                    st.event("use-after-free", name, (a,), None, i, status=h[0])
            c = content_or(eng, st, a)
            if pa is not None:
                n = st.plen(c)
                if st.facts.ge0(sub(pa, n)):
                    pass
                elif st.facts.ge0(sub(n, pa)):
                    c = st.head(c, pa)
                    if c is None:
                        c = (("unk", eng.fresh_id()),)
                else:
                    c = (("unk", eng.fresh_id()),)
            out += list(c)
        elif conv == "c" and width is None:
            v = a
            at = single(a)
            if at is not None and at[0] == "op" and at[1] in ("sext", "zext") and at[3] == 8:
                v = at[4]
            out.append(("byte", v if v.t else K(v.c & 255)))
        else:
            if not a.t and text in ("%d", "%i", "%u", "%ld", "%lu", "%zu"):
                out.append(("lit", str(a.c).encode()))
            else:
                out.append(("fmt", text, a))
    return norm(out), f


def by_precision(eng, st, fmt_arg, rest):
    """The state, split where a text may be shorter or longer than its precision."""
    f = literal(content(eng, st, fmt_arg))
    sp = parse_format(f.decode("latin-1")) if f is not None else None
    states, k = [st], 0
    for s in sp or ():
        if s[0] == "lit" or s[4] == "%":
            continue
        _, text, width, prec, conv = s
        k += width == "*"
        pa = K(int(prec)) if prec not in (None, "*") else None
        if prec == "*":
            pa = rest[k] if k < len(rest) else None
            k += 1
        if k >= len(rest):
            break
        a = rest[k]
        k += 1
        if conv != "s" or pa is None:
            continue
        out = []
        for s1 in states:
            if s1.isnull(a) is not False:
                out.append(s1)
                continue
            n = s1.plen(content_or(eng, s1, a))
            if s1.facts.ge0(sub(pa, n)) or s1.facts.ge0(sub(n, pa)):
                out.append(s1)
                continue
            s2 = s1.fork()
            if s1.addge(sub(pa, n)):
                out.append(s1)
            if s2.addge(addc(sub(n, pa), -1)):
                out.append(s2)
        states = out
    return states


@model("snprintf", "sprintf", "__snprintf_chk", "__sprintf_chk")
def m_snprintf(eng, st, i, args, name):
    fi = 2 if "sn" in name else 1
    return [r for s in by_precision(eng, st, args[fi], args[fi + 1:]) for r in m_snprintf1(eng, s, i, args, name)]


def m_snprintf1(eng, st, i, args, name):
    bounded = "sn" in name
    dst, n = args[0], args[1] if bounded else None
    fi = 2 if bounded else 1
    parts, _ = render(eng, st, i, name, args[fi], args[fi + 1:])
    total = st.plen(parts)
    if bounded and n == K(0):
        return [(st, total)]
    if not needs(eng, st, i, name, args, (0,)):
        return []
    if not bounded:
        put(eng, st, i, name, dst, parts, True)
        return [(st, total)]
    out = []
    r = st.facts.decide("slt", total, n, 64)
    if r is not False:
        s2 = st.fork() if r is None else st
        if r is True or s2.addge(addc(sub(n, total), -1)):
            b, o = s2.split(dst)
            s2.event("write", name, (dst, addc(total, 1)), None, i, parts=parts, exact=True, limit=n, trunc=False)
            if b is not None:
                s2.write_str(b, o, parts, True, total)
            out.append((s2, total))
    if r is not True:
        if r is False or st.addge(sub(total, n)):
            st.event("write", name, (dst, n), None, i, parts=parts, exact=True, limit=n, trunc=True)
            b, o = st.split(dst)
            if b is not None:
                h = st.head(parts, addc(n, -1))
                st.write_str(b, o, h, True, addc(n, -1))
            out.append((st, total))
    return out


@model("__isoc99_sscanf", "sscanf", "__isoc23_sscanf")
def m_sscanf(eng, st, i, args, name):
    if not needs(eng, st, i, name, args, (0, 1)):
        return []
    src = content(eng, st, args[0])
    fmt = literal(content(eng, st, args[1]))
    import re
    text = fmt.decode("latin-1") if fmt is not None else ""
    todo = []
    k = 2
    for m in re.finditer(r"%(\*)?(\d+)?(hh|h|ll|l|z|j)?(\[\^?\]?[^\]]*\]|[a-zA-Z%])", text):
        if m.group(4) == "%" or m.group(1):
            continue
        if k >= len(args):
            break
        todo.append((m, args[k]))
        k += 1
    total = len([1 for m, _ in todo if m.group(4) != "n"])
    if fmt is None:
        todo, total = [], max(0, len(args) - 2)
        for a in args[2:]:
            b, o = st.split(a)
            if b is not None:
                st.havoc_str(b)
    out = []
    for good in range(total, -1, -1):
        s2 = st.fork() if good else st
        nconv, ok, vals = 0, True, []
        for m, a in todo:
            conv = m.group(4)
            if conv != "n" and nconv == good:
                break
            b, o = s2.split(a)
            if conv[0] in "s[":
                cap = None if m.group(2) is None else int(m.group(2))
                n = s2.plen(src) if src is not None else A(eng.leaf("size", 64))
                s2.event("write", name, (a, addc(n, 1) if cap is None else K(cap + 1)), None, i, parts=None,
                         exact=cap is None and src is not None, scan=conv)
                if b is not None:
                    s2.havoc_str(b)
                    L = s2.strlen_atom(b, s2.bver[b])
                    ok = ok and s2.addge(addc(sub(L, o), -1))
                    if cap is not None:
                        ok = ok and s2.addge(sub(K(cap), sub(L, o)))
                    elif src is not None:
                        ok = ok and s2.addge(sub(n, sub(L, o)))
            elif b is not None:
                w = 64 if m.group(3) in ("l", "ll", "z") else 32
                at = eng.leaf("scan", w, conv)
                vals.append((conv, at))
                if conv == "n":
                    eng.ivs[at] = (1 if nconv else 0, INF)
                    if src is not None:
                        ok = ok and s2.addge(sub(s2.plen(src), A(at)))
                    s2.event("scan-n", name, (a,), A(at), i)
                for c in [c for c in s2.mem if c[0] == b and sub(c[1], o) == K(0)]:
                    cls = s2.mem[c][1]
                    s2.mem[c] = (A(at), cls)
                    break
                else:
                    s2.mem[(b, o)] = (A(at), ("t", "i%d" % w))
            if conv != "n":
                nconv += 1
        if not ok:
            continue
        rv = ret_leaf(eng, i, name, dom=[good] if good else [-1, 0]) if fmt is not None else \
            ret_leaf(eng, i, name, dom=range(-1, total + 1))
        call_event(eng, s2, i, name, args, rv, fmt=fmt, scanned=good, vals=tuple(vals))
        out.append((s2, rv))
        if fmt is None:
            break
    return out


# ---------------------------------------------------------------- heap

@model("malloc", "calloc", "alloca", "aligned_alloc", "valloc")
def m_malloc(eng, st, i, args, name):
    if name == "calloc":
        a, b = args
        size = scale(a, b.c) if not b.t else scale(b, a.c) if not a.t else eng.mkop(st, "mul", 64, 64, a, b)
    else:
        size = args[-1]
    o = eng.obj(st, "%s:%d" % (i.fn.name, i.line), size, "heap", "zero" if name == "calloc" else "undef", i)
    s2 = st.fork()
    st.heap[o] = ("live", i)
    st.event("alloc", name, (A(o), size), A(o), i)
    errno_touch(s2)
    s2.event("alloc-fail", name, args, K(0), i)
    return [(st, A(o)), (s2, K(0))]


@model("realloc", "reallocarray")
def m_realloc(eng, st, i, args, name):
    p = args[0]
    size = args[1] if name == "realloc" else eng.mkop(st, "mul", 64, 64, args[1], args[2])
    s2 = st.fork()
    o = eng.obj(st, "%s:%d" % (i.fn.name, i.line), size, "heap", "undef", i)
    b, off = st.split(p)
    if b is not None and st.isnull(p) is not True:
        for (bb, oo), v in list(st.mem.items()):
            if bb == b:
                st.mem[(o, oo)] = v
        st.log[o] = st.log.get(b, ())
        st.fill[o] = st.fillof(b)
        if st.fill[o] == "ext":
            # the copied tail stays addressable under the old name
            c = st.content(b, K(0))
            if c is not None:
                st.write_str(o, K(0), c, True, st.plen(c))
        release(eng, st, i, p, name)
    st.heap[o] = ("live", i)
    st.event("alloc", name, (A(o), size), A(o), i, src=p)
    errno_touch(s2)
    s2.event("alloc-fail", name, args, K(0), i)
    return [(st, A(o)), (s2, K(0))]


@model("strdup", "strndup")
def m_strdup(eng, st, i, args, name):
    if not needs(eng, st, i, name, args, (0,)):
        return []
    st.event("read", name, (args[0],), None, i)
    c = content_or(eng, st, args[0])
    vers = [(st, c)]
    if name == "strndup":
        vers = []
        n = st.plen(c)
        a = st.fork()
        if a.addge(sub(args[1], n)):
            vers.append((a, c))
        if st.addge(addc(sub(n, args[1]), -1)):
            vers.append((st, st.head(c, args[1]) or (("unk", eng.fresh_id()),)))
    out = []
    for s, c in vers:
        n = s.plen(c)
        o = eng.obj(s, "%s:%d" % (i.fn.name, i.line), addc(n, 1), "heap", "undef", i)
        s2 = s.fork()
        s.heap[o] = ("live", i)
        s.write_str(o, K(0), c, True, n)
        s.event("alloc", name, (A(o), addc(n, 1)), A(o), i, parts=c)
        errno_touch(s2)
        s2.event("alloc-fail", name, args, K(0), i)
        out += [(s, A(o)), (s2, K(0))]
    return out


def release(eng, st, i, p, name):
    b, o = st.split(p)
    if b is None:
        st.event("free", name, (p,), None, i)
        return
    h = st.heap.get(b)
    if h is not None and h[0] in ("freed", "maybe-freed"):
        st.event("double-free", name, (p,), None, i, status=h[0])
    elif h is not None and h[0] == "stack" or b[0] == "obj" and (isinstance(b[1], str) and b[1].startswith("@")):
        st.event("bad-free", name, (p,), None, i)
    elif o != K(0) and not st.facts.eq0(o):
        if b[0] == "obj":
            st.event("bad-free", name, (p,), None, i)
    st.event("free", name, (p,), None, i)
    st.heap[b] = ("freed", i)


@model("free")
def m_free(eng, st, i, args, name):
    n = st.isnull(args[0])
    if n is True:
        return [(st, K(0))]
    if n is None:
        s2 = st.fork()
        out = []
        if s2.assume_cmp("eq", args[0], K(0), 64):
            out.append((s2, K(0)))
        if st.assume_cmp("ne", args[0], K(0), 64):
            release(eng, st, i, args[0], name)
            out.append((st, K(0)))
        return out
    release(eng, st, i, args[0], name)
    return [(st, K(0))]


# ---------------------------------------------------------------- output and program end

def stream_name(eng, v):
    at = single(v)
    if at is not None and at[0] == "leaf" and at[1] == "mem" and at[2] in (("obj", "@stdout"), ("obj", "@stderr"),
                                                                           ("obj", "@stdin")):
        return at[2][1][1:]
    return None


def out_event(eng, st, i, name, args, stream, parts, rv, fmt=None):
    st.event("out", name, args, rv, i, stream=stream_name(eng, stream) if stream is not None else "stdout",
             handle=stream, parts=parts, fmt=fmt)


@model("printf", "fprintf", "puts", "fputs", "fputc", "putc", "putchar", "fwrite", "perror", "vfprintf", "dprintf",
       "__printf_chk", "__fprintf_chk", "fputs_unlocked", "putc_unlocked", "putchar_unlocked")
def m_out(eng, st, i, args, name):
    if "printf" in name and not name.startswith(("v", "d")):
        fi = (1 if "fprintf" in name else 0)
        return [r for s in by_precision(eng, st, args[fi], args[fi + 1:]) for r in m_out1(eng, s, i, args, name)]
    return m_out1(eng, st, i, args, name)


def m_out1(eng, st, i, args, name):
    stream, parts, fmt = None, None, None
    if "fprintf" in name:
        if not needs(eng, st, i, name, args, (0, 1)):
            return []
        stream = args[0]
        parts, fmt = render(eng, st, i, name, args[1], args[2:])
    elif "printf" in name:
        parts, fmt = render(eng, st, i, name, args[0], args[1:])
    elif name == "puts":
        if not needs(eng, st, i, name, args, (0,)):
            return []
        parts = norm(content_or(eng, st, args[0]) + (("lit", b"\n"),))
    elif name.startswith("fputs"):
        if not needs(eng, st, i, name, args, (0, 1)):
            return []
        stream, parts = args[1], content_or(eng, st, args[0])
    elif name.startswith("putchar"):
        parts = norm((("byte", _byte(args[0])),))
    elif name in ("fputc", "putc", "putc_unlocked"):
        if not needs(eng, st, i, name, args, (1,)):
            return []
        stream, parts = args[1], norm((("byte", _byte(args[0])),))
    elif name == "fwrite":
        if not needs(eng, st, i, name, args, (0, 3)):
            return []
        stream = args[3]
        n = scale(args[1], args[2].c) if not args[2].t else scale(args[2], args[1].c) if not args[1].t else None
        c = content(eng, st, args[0])
        if c is not None and n is not None:
            ln = st.plen(c)
            if st.facts.eq0(sub(n, ln)):
                parts = c
            elif st.facts.ge0(sub(ln, n)):
                parts = st.head(c, n)
        if parts is None:
            parts = (("unk", eng.fresh_id()),)
    else:
        stream = None
        parts = (("unk", eng.fresh_id()),)
    rv = ret_leaf(eng, i, name)
    if name == "perror":
        st.event("out", name, args, rv, i, stream="stderr", handle=None, parts=parts, fmt=None)
    else:
        out_event(eng, st, i, name, args, stream, parts, rv, fmt)
    return [(st, rv)]


def _byte(v):
    at = single(v)
    if at is not None and at[0] == "op" and at[1] in ("sext", "zext") and at[3] == 8:
        v = at[4]
    return K(v.c & 255) if not v.t else v


@model("exit", "_exit", "_Exit", "abort", "quick_exit", "__assert_fail")
def m_exit(eng, st, i, args, name):
    code = args[0] if args and name != "__assert_fail" else K(134)
    st.event("exit", name, args, code, i)
    eng.exits.append((st, code))
    return []


@model("fflush", "setbuf", "setvbuf", "fileno", "clearerr", "rewind", "isatty", "strerror", "setlocale", "atexit",
       "signal", "umask", "getpid", "time", "fseek", "ftell", "fputs_", "srand", "rand", "access", "closelog",
       "strsignal", "localeconv", "nl_langinfo", "sysconf", "getuid", "geteuid")
def m_plain(eng, st, i, args, name):
    rv = ret_leaf(eng, i, name)
    if name in ("strerror", "strsignal"):
        eng.ivs[single(rv)] = (1, INF)
    call_event(eng, st, i, name, args, rv, external=True)
    return [(st, rv)]


@model("__errno_location")
def m_errno(eng, st, i, args, name):
    return [(st, A(("obj", "errno")))]


# ---------------------------------------------------------------- streams and directories

def open_handle(eng, st, i, args, name, extra=None):
    if not needs(eng, st, i, name, args, (0,)):
        return []
    errno_touch(st)
    strs = contents(eng, st, args)
    s2 = st.fork()
    o = eng.obj(st, "%s:%s:%d" % (name, i.fn.name, i.line), K(0), "handle", "ext", i)
    st.handles[o] = ("open", i, name)
    st.event("open", name, args, A(o), i, strs=strs, epoch=st.fs, mem=dict(st.mem))
    s2.event("open", name, args, K(0), i, strs=strs, epoch=st.fs, mem=dict(s2.mem))
    return [(st, A(o)), (s2, K(0))]


@model("opendir", "fdopendir")
def m_opendir(eng, st, i, args, name):
    return open_handle(eng, st, i, args, name)


@model("fopen", "fopen64", "fdopen")
def m_fopen(eng, st, i, args, name):
    mode = literal(content(eng, st, args[1]))
    path = literal(content(eng, st, args[0]))
    if (mode is None or set(mode) & set(b"wa+")) and path != b"/dev/null":
        st.event("fs", name, args, None, i, strs=contents(eng, st, args), mem=dict(st.mem), mode=mode)
        st.fs = eng.epoch(st, i, tuple(args))
    return open_handle(eng, st, i, args, name)


@model("open", "openat", "open64")
def m_open(eng, st, i, args, name):
    k = 1 if name != "openat" else 2
    fl = args[k] if k < len(args) else K(0)
    if fl.t or fl.c & (0o1 | 0o2 | 0o100 | 0o1000 | 0o2000):
        st.event("fs", name, args, None, i, strs=contents(eng, st, args), mem=dict(st.mem))
        st.fs = eng.epoch(st, i, tuple(args))
    rv = ret_leaf(eng, i, name)
    call_event(eng, st, i, name, args, rv, external=True)
    return [(st, rv)]


@model("write")
def m_write(eng, st, i, args, name):
    if args[0].t or args[0].c not in (1, 2):
        st.event("fs", name, args, None, i, strs={}, mem=dict(st.mem))
    st.event("out", name, args, None, i, stream={1: "stdout", 2: "stderr"}.get(args[0].c if not args[0].t else 0),
             handle=None, parts=(("unk", eng.fresh_id()),), fmt=None)
    return [(st, ret_leaf(eng, i, name))]


@model("closedir", "fclose", "pclose")
def m_close(eng, st, i, args, name):
    if not needs(eng, st, i, name, args, (0,)):
        return []
    errno_touch(st)
    b, o = st.split(args[0])
    h = st.handles.get(b)
    if h is not None and h[0] == "closed":
        st.event("double-close", name, args, None, i)
    if b is not None:
        st.handles[b] = ("closed", i, h[2] if h else None)
    rv = ret_leaf(eng, i, name)
    st.event("close", name, args, rv, i)
    return [(st, rv)]


@model("readdir", "readdir64")
def m_readdir(eng, st, i, args, name):
    if not needs(eng, st, i, name, args, (0,)):
        return []
    errno_touch(st)
    s2 = st.fork()
    at = eng.leaf("dirent", 64, ptr=True)
    eng.ivs[at] = (1, INF)
    eng.mark_dirent(at)
    st.event("call", name, args, A(at), i, handle=args[0])
    s2.event("call", name, args, K(0), i, handle=args[0])
    return [(st, A(at)), (s2, K(0))]


def fill_stat(eng, st, buf, sid):
    b, o = st.split(buf)
    if b is None:
        return
    for k in [k for k in st.mem if k[0] == b]:
        d = sub(k[1], o)
        if d.t or 0 <= d.c < 144:
            del st.mem[k]
    s = eng.prog.structs.get("stat")
    names = eng.prog.fieldnames.get("stat", {})
    if s is None:
        return
    for n in range(len(s.fields)):
        fo, ft = llir.field_offset(s, n)
        if ft.kind != "int":
            continue
        at = ("leaf", "stat", sid, names.get(fo, str(fo)), ft.bits)
        st.mem[(b, addc(o, fo))] = (A(at), ("f", "stat", fo))


@model("lstat", "stat", "fstatat", "lstat64", "stat64")
def m_stat(eng, st, i, args, name):
    if name == "fstatat":
        fl = args[3]
        name = "lstat" if not fl.t and fl.c & 0x100 else "stat"
        pk, bk = 1, 2
    else:
        name = name.replace("64", "")
        pk, bk = 0, 1
    if not needs(eng, st, i, name, args, (pk, bk)):
        return []
    errno_touch(st)
    path = content(eng, st, args[pk])
    strs = {0: path} if path is not None else {}
    key = (name, path, st.fs) if path is not None else None
    old = st.statmem.get(key) if key else None
    out = []
    if old is None or old[0] == 0:
        s2 = st.fork() if old is None else st
        sid = old[1] if old else "%s:%d#%d" % (i.fn.name, i.line, eng.fresh_id())
        if key and old is None:
            s2.statmem = dict(s2.statmem)
            s2.statmem[key] = (0, sid)
        fill_stat(eng, s2, args[bk], sid)
        s2.event("stat", name, args, K(0), i, strs=strs, sid=sid, fs=st.fs)
        out.append((s2, K(0)))
    if old is None or old[0] == -1:
        s2 = st
        if key and old is None:
            s2.statmem = dict(s2.statmem)
            s2.statmem[key] = (-1, None)
        s2.event("stat", name, args, K(-1), i, strs=strs, sid=None, fs=st.fs)
        out.append((s2, K(-1)))
    return out


@model("fstat")
def m_fstat(eng, st, i, args, name):
    s2 = st.fork()
    fill_stat(eng, s2, args[1], "fstat#%d" % eng.fresh_id())
    return [(s2, K(0)), (st, K(-1))]


def m_mutate(eng, st, i, args, name):
    paths = {"rename": (0, 1), "link": (0, 1), "symlink": (0, 1), "unlink": (0,), "remove": (0,), "rmdir": (0,),
             "mkdir": (0,), "chmod": (0,), "truncate": (0,), "creat": (0,), "renameat": (1, 3), "renameat2": (1, 3)}
    if not needs(eng, st, i, name, args, paths.get(name, ())):
        return []
    errno_touch(st)
    strs = contents(eng, st, args)
    s2 = st.fork()
    snap = dict(st.mem)
    st.event("fs", name, args, K(0), i, strs=strs, mem=snap, noc=st.noc, epoch=st.fs, heap=st)
    st.fs = eng.epoch(st, i, tuple(sorted(strs.items())))
    s2.event("fs", name, args, K(-1), i, strs=strs, mem=snap, noc=s2.noc, epoch=s2.fs)
    return [(st, K(0)), (s2, K(-1))]


for n in ("rename", "renameat", "renameat2", "unlink", "remove", "rmdir", "mkdir", "link", "symlink", "chmod",
          "truncate", "creat", "unlinkat", "mkfifo", "mknod"):
    MODELS[n] = m_mutate


@model("fgets", "fgets_unlocked")
def m_fgets(eng, st, i, args, name):
    if not needs(eng, st, i, name, args, (0, 2)):
        return []
    s2 = st.fork()
    st.event("write", name, (args[0], args[1]), None, i, parts=None, exact=True)
    b, o = st.split(args[0])
    if b is not None:
        st.havoc_str(b)
        L = sub(st.strlen_atom(b, st.bver[b]), o)
        st.addge(L)
        st.addge(addc(sub(args[1], L), -1))
    st.event("call", name, args, args[0], i, handle=args[2])
    s2.event("call", name, args, K(0), i, handle=args[2])
    return [(st, args[0]), (s2, K(0))]


@model("fgetc", "getc", "getchar", "getc_unlocked")
def m_fgetc(eng, st, i, args, name):
    if args and not needs(eng, st, i, name, args, (0,)):
        return []
    rv = ret_leaf(eng, i, name, dom=range(-1, 256))
    st.event("call", name, args, rv, i, handle=args[0] if args else None)
    return [(st, rv)]


@model("ungetc")
def m_ungetc(eng, st, i, args, name):
    if not needs(eng, st, i, name, args, (1,)):
        return []
    rv = ret_leaf(eng, i, name, dom=range(-1, 256))
    st.event("call", name, args, rv, i, handle=args[1])
    return [(st, rv)]


@model("feof", "ferror")
def m_feof(eng, st, i, args, name):
    if not needs(eng, st, i, name, args, (0,)):
        return []
    rv = ret_leaf(eng, i, name)
    st.event("call", name, args, rv, i, handle=args[0])
    return [(st, rv)]


# ---------------------------------------------------------------- environment and options

@model("getenv", "secure_getenv")
def m_getenv(eng, st, i, args, name):
    lit = literal(content(eng, st, args[0]))
    key = ("getenv", lit)
    old = st.statmem.get(key) if lit is not None else None
    if old is not None:
        return [(st, old)]
    at = ("leaf", "env", lit if lit is not None else eng.fresh_id(), 64)
    eng.ptrs.add(at)
    eng.ivs[at] = (1, INF)
    out = []
    for rv in (A(at), K(0)):
        s = st.fork()
        if lit is not None:
            s.statmem = dict(s.statmem)
            s.statmem[key] = rv
        s.event("call", name, args, rv, i, strs={0: (("lit", lit),)} if lit is not None else {})
        out.append((s, rv))
    return out


@model("__xpg_basename", "basename", "__basename")
def m_basename(eng, st, i, args, name):
    at = ("leaf", "basename", args[0], 64)
    eng.ptrs.add(at)
    eng.ivs[at] = (1, INF)
    eng.noslash.add(at)
    st.event("call", name, args, A(at), i, strs=contents(eng, st, args))
    return [(st, A(at))]


@model("dirname")
def m_dirname(eng, st, i, args, name):
    rv = ret_leaf(eng, i, name)
    eng.ivs[single(rv)] = (1, INF)
    call_event(eng, st, i, name, args, rv, external=True)
    return [(st, rv)]


def long_options(eng, st, p):
    """[(name, has_arg, flag value Lin, val)] of a constant option table."""
    b, o = st.split(p)
    out = []
    if b is None or b[0] != "obj" or o.t:
        return None
    key = b[1][1:] if isinstance(b[1], str) else None
    g = eng.prog.globals.get(key)
    if g is None or g.init is None:
        return None
    for n in range(64):
        base = addc(o, 32 * n)
        nm = eng.global_cell(b, base, llir.PTR)
        if nm is None:
            return None
        if nm == K(0):
            return out
        nb, no = st.split(nm)
        text = eng.global_tail(nb, no)
        ha = eng.global_cell(b, addc(base, 8), llir.INT(32))
        fl = eng.global_cell(b, addc(base, 16), llir.PTR)
        vl = eng.global_cell(b, addc(base, 24), llir.INT(32))
        if text is None or ha is None or fl is None or vl is None:
            return None
        out.append((text.decode("latin-1"), ha.c, fl, vl.c))
    return out


@model("getopt_long", "getopt", "getopt_long_only")
def m_getopt(eng, st, i, args, name):
    os_ = literal(content(eng, st, args[2]))
    lo = long_options(eng, st, args[3]) if len(args) > 3 else []
    optarg = ("obj", "@optarg")
    optind = ("obj", "@optind")
    choices = []
    if os_ is None or lo is None:
        rv = ret_leaf(eng, i, name)
        st.mem.pop((optarg, K(0)), None)
        st.cver[("g", "optarg")] = eng.fresh_id()
        st.event("call", name, args, rv, i, unknown=True)
        return [(st, rv)]
    text = os_.decode("latin-1").lstrip("+-:")
    k = 0
    while k < len(text):
        c = text[k]
        arg = 0
        if text[k + 1:k + 2] == ":":
            arg = 1
            if text[k + 2:k + 3] == ":":
                arg = 2
        choices.append(("-" + c, ord(c), arg, None, None))
        k += 1 + arg
    for nm, ha, fl, vl in lo:
        if fl == K(0):
            choices.append(("--" + nm, vl, ha, None, None))
        else:
            choices.append(("--" + nm, 0, ha, fl, vl))
    if True:
        choices.append(("?", ord("?"), 0, None, None))
    choices.append(("end", -1, 0, None, None))
    out = []
    for label, ret, arg, fl, vl in choices:
        s = st.fork()
        if arg == 1:
            at = eng.leaf("optarg", 64, label, ptr=True)
            eng.ivs[at] = (1, INF)
            s.mem[(optarg, K(0))] = (A(at), ("g", "optarg"))
        elif arg == 2:
            at = eng.leaf("optarg", 64, label, ptr=True)
            s.mem[(optarg, K(0))] = (A(at), ("g", "optarg"))
        else:
            s.mem[(optarg, K(0))] = (K(0), ("g", "optarg"))
        s.cver[("g", "optarg")] = eng.fresh_id()
        s.mem[(optind, K(0))] = (A(eng.leaf("size", 32, "optind")), ("g", "optind"))
        s.cver[("g", "optind")] = eng.fresh_id()
        if fl is not None:
            b, o = s.split(fl)
            cls = ("g", b[1][1:])
            s.store_cell(b, o, cls, K(vl), 4)
        s.event("option", name, args, K(ret), i, label=label, optarg=arg)
        out.append((s, K(ret)))
    return out
