"""Abstract values: linear forms over atoms, and the finite/interval reasoning on them.

Atoms are tuples:
  ('obj', id)                     address of an object (alloca, global, heap cell); never null
  ('fn', key)                     address of a function
  ('leaf', tag, ..., width)       an unknown value
  ('op', name, width, argwidth, *args)  a non-linear operator applied to linear forms
  ('cmp', pred, width, a, b)      a comparison, 0 or 1
"""


class Lin:
    __slots__ = ("t", "c", "h")

    def __init__(self, t, c):
        self.t, self.c = t, c
        self.h = hash((t, c))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)


_konst = {}


def K(n):
    r = _konst.get(n)
    if r is None:
        r = _konst[n] = Lin((), n)
    return r


_order = {}


def _key(atom):
    r = _order.get(atom)
    if r is None:
        r = _order[atom] = len(_order)
    return r


def A(atom):
    if atom not in _order:
        _order[atom] = len(_order)
    return Lin(((atom, 1),), 0)


def add(a, b, kb=1):
    if not b.t:
        return Lin(a.t, a.c + kb * b.c)
    d = dict(a.t)
    for at, c in b.t:
        n = d.get(at, 0) + kb * c
        if n:
            d[at] = n
        else:
            d.pop(at, None)
    return Lin(tuple(sorted(d.items(), key=lambda x: _key(x[0]))), a.c + kb * b.c)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if k == 0:
        return K(0)
    return Lin(tuple((at, c * k) for at, c in a.t), a.c * k)


def addc(a, n):
    return Lin(a.t, a.c + n)


def isk(a):
    return not a.t


def single(a):
    """The atom if `a` is exactly one atom."""
    if len(a.t) == 1 and a.c == 0 and a.t[0][1] == 1:
        return a.t[0][0]
    return None


def subst(x, m):
    """Replaces atoms by linear forms, inside operators too."""
    if isinstance(x, Lin):
        r = K(x.c)
        ch = False
        for at, c in x.t:
            n = subst_atom(at, m)
            if n is not None:
                ch = True
                r = add(r, n, c)
            else:
                r = add(r, A(at), c)
        return r if ch else x
    if isinstance(x, tuple):
        y = tuple(subst(e, m) if isinstance(e, (Lin, tuple)) else e for e in x)
        return y
    return x


def subst_atom(at, m):
    if at in m:
        return m[at]
    if at[0] in ("op", "cmp", "leaf"):
        n = tuple(subst(e, m) if isinstance(e, Lin) else
                  (_sub_tuple(e, m) if isinstance(e, tuple) else e) for e in at)
        if n != at:
            return A(n)
    return None


def _sub_tuple(e, m):
    if e in m:
        r = single(m[e])
        return r if r is not None else e
    return tuple(subst(x, m) if isinstance(x, Lin) else (_sub_tuple(x, m) if isinstance(x, tuple) else x) for x in e)


def atoms_of(x, out=None):
    """All atoms occurring, at any depth."""
    if out is None:
        out = set()
    if isinstance(x, Lin):
        for at, _ in x.t:
            atoms_of(at, out)
    elif isinstance(x, tuple):
        if x and x[0] in ("obj", "fn", "leaf", "op", "cmp"):
            if x in out:
                return out
            out.add(x)
            for e in x[1:]:
                if isinstance(e, (Lin, tuple)):
                    atoms_of(e, out)
        else:
            for e in x:
                if isinstance(e, (Lin, tuple)):
                    atoms_of(e, out)
    return out


_leaves = {}


def leaves(x):
    """Leaf atoms a value is computed from (arguments of operators included, not of leaves)."""
    if isinstance(x, Lin):
        if len(x.t) == 1:
            return leaves_atom(x.t[0][0])
        s = frozenset()
        for at, _ in x.t:
            s |= leaves_atom(at)
        return s
    return leaves_atom(x)


def leaves_atom(at):
    r = _leaves.get(at)
    if r is None:
        if at[0] in ("op", "cmp"):
            s = frozenset()
            for e in at[1:]:
                if isinstance(e, Lin):
                    s |= leaves(e)
            r = s if s or at[0] == "cmp" else frozenset([at])
            if at[0] == "op" and at[1] in OPAQUE_OPS:
                r = frozenset([at])
        else:
            r = frozenset([at])
        _leaves[at] = r
    return r


OPAQUE_OPS = {"strcmp", "strlen", "strncmp", "strcasecmp", "strncasecmp", "strchr?", "memcmp"}


def show(x):
    if isinstance(x, Lin):
        parts = []
        for at, c in x.t:
            s = show_atom(at)
            parts.append(("" if c == 1 else "-" if c == -1 else "%d*" % c) + s)
        if x.c or not parts:
            parts.append(str(x.c))
        return " + ".join(parts).replace("+ -", "- ")
    return show_atom(x)


def show_atom(a):
    if not isinstance(a, tuple):
        return repr(a)
    if not a:
        return "()"
    if a[0] == "obj":
        return "&%s" % (a[1],)
    if a[0] == "leaf":
        return "%s(%s)" % (a[1], ",".join(show(e) if isinstance(e, (Lin, tuple)) else str(e) for e in a[2:-1]))
    if a[0] == "op":
        return "%s(%s)" % (a[1], ",".join(show(e) for e in a[4:]))
    if a[0] == "cmp":
        return "(%s %s %s)" % (show(a[3]), a[1], show(a[4]))
    return "<" + " ".join(show(e) if isinstance(e, (Lin, tuple)) else repr(e) for e in a) + ">"


# ---------------------------------------------------------------- evaluation on concrete leaves

class Unknown(Exception):
    pass


def _sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def _ux(v, w):
    return v & ((1 << w) - 1)


def ev(x, asg):
    """Value of x under an assignment of its leaves (signed for w>8, unsigned for bytes)."""
    r = x.c
    for at, c in x.t:
        r += c * ev_atom(at, asg)
    return r


CT = {
    "isxdigit": lambda c: chr(c) in "0123456789abcdefABCDEF",
    "isdigit": lambda c: 48 <= c <= 57,
    "isupper": lambda c: 65 <= c <= 90,
    "islower": lambda c: 97 <= c <= 122,
    "isalpha": lambda c: 65 <= c <= 90 or 97 <= c <= 122,
    "isalnum": lambda c: 65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57,
    "isspace": lambda c: c in (9, 10, 11, 12, 13, 32),
    "isblank": lambda c: c in (9, 32),
    "iscntrl": lambda c: c < 32 or c == 127,
    "ispunct": lambda c: 33 <= c <= 126 and not chr(c).isalnum(),
    "isprint": lambda c: 32 <= c <= 126,
    "isgraph": lambda c: 33 <= c <= 126,
}
# classes whose members above 0x7F do not depend on the locale (glibc)
FIXED = {"isxdigit", "isdigit"}


def ev_atom(at, asg):
    if at in asg:
        return asg[at]
    k = at[0]
    if k == "cmp":
        w = at[2]
        a, b = ev(at[3], asg), ev(at[4], asg)
        return int(cmpvals(at[1], a, b, w))
    if k != "op":
        raise Unknown(at)
    name, w, aw = at[1], at[2], at[3]
    v = [ev(e, asg) for e in at[4:] if isinstance(e, Lin)]
    if name == "sext":
        return _sx(v[0], aw)
    if name == "zext":
        return _ux(v[0], aw)
    if name == "trunc":
        return _ux(v[0], w) if w <= 8 else _sx(v[0], w)
    norm = (lambda n: _ux(n, w)) if w <= 8 else (lambda n: _sx(n, w))
    if name == "and":
        return norm(_ux(v[0], w) & _ux(v[1], w))
    if name == "or":
        return norm(_ux(v[0], w) | _ux(v[1], w))
    if name == "xor":
        return norm(_ux(v[0], w) ^ _ux(v[1], w))
    if name == "shl":
        return norm(v[0] << (v[1] & 63))
    if name == "lshr":
        return norm(_ux(v[0], w) >> (v[1] & 63))
    if name == "ashr":
        return norm(_sx(v[0], w) >> (v[1] & 63))
    if name == "mul":
        return norm(v[0] * v[1])
    if name in ("udiv", "urem", "sdiv", "srem"):
        a, b = v
        if name[0] == "u":
            a, b = _ux(a, w), _ux(b, w)
        else:
            a, b = _sx(a, w), _sx(b, w)
        if b == 0:
            raise Unknown(at)
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return norm(q if name.endswith("div") else a - q * b)
    if name == "select":
        return v[1] if v[0] else v[2]
    if name in CT:
        c = v[0]
        if 0 <= c < 128:
            return int(bool(CT[name](c)))
        if name in FIXED:
            return 0
        raise Unknown(at)
    if name in ("tolower", "toupper"):
        c = v[0]
        if 0 <= c < 128:
            if name == "tolower":
                return c + 32 if 65 <= c <= 90 else c
            return c - 32 if 97 <= c <= 122 else c
        raise Unknown(at)
    if name == "strtol":
        # args: base, digits...
        base = v[0]
        s = ""
        for c in v[1:]:
            if c == 0:
                break
            s += chr(c)
        if not 2 <= base <= 36:
            raise Unknown(at)
        s = s.lstrip(" \t\n\v\f\r")
        sign = -1 if s[:1] == "-" else 1
        s = s[1:] if s[:1] in ("+", "-") else s
        if base == 16 and s[:2] in ("0x", "0X") and s[2:3] and s[2:3] in "0123456789abcdefABCDEF":
            s = s[2:]
        n = 0
        for ch in s:
            d = "0123456789abcdefghijklmnopqrstuvwxyz".find(ch.lower())
            if d < 0 or d >= base:
                break
            n = n * base + d
        return sign * n
    raise Unknown(at)


def cmpvals(pred, a, b, w):
    if pred == "eq":
        return _ux(a, w) == _ux(b, w)
    if pred == "ne":
        return _ux(a, w) != _ux(b, w)
    if pred[0] == "u":
        a, b = _ux(a, w), _ux(b, w)
    else:
        a, b = _sx(a, w), _sx(b, w)
    p = pred[1:]
    return a < b if p == "lt" else a <= b if p == "le" else a > b if p == "gt" else a >= b


NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult",
       "ugt": "ule", "ule": "ugt"}
SWAP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult",
        "ule": "uge", "uge": "ule"}
