"""C39: the shipped sequences applied to their own output."""
from collections import deque

import c_filters
import c_grammar
import c_tables
import runs
import transduce
from terms import *  # noqa: F401,F403
from transduce import Unsure

CLEANERS = {"SAFE": "clean_safe", "ISO8859_1": "clean_iso8859_1", "UTF_8": "clean_utf_8", "UNCGI": "clean_uncgi",
            "WIPEUP": "clean_wipeup", "LOWER": "clean_lower"}


@runs.memo
def constant_table(name):
    """(rows, default) of a builtin table, from its loader and its initialiser."""
    p = runs.prog()
    sh = c_tables.Shape(p)
    f, r = c_tables.table_run("load_builtin_%s_table" % name, ("table_resize",))
    own = set()
    for s, rv in r.results:
        for e in s.events():
            if e.kind == "call" and e.name == "table_resize":
                own.add(c_tables.own_table(p, e.args[0]))
        if c_tables.own_table(p, rv):
            own.add(c_tables.own_table(p, rv))
    if len(own) != 1 or None in own:
        raise Unsure("the table %s is not one constant" % name)
    key, base = own.pop()
    t = c_tables.read_global(p, sh, p.globals[key], base)
    if t["rows"] is None or not isinstance(t["length"], int) or not t["default known"]:
        raise Unsure("the table %s cannot be read" % name)
    rows = {}
    for k, v in t["rows"][:t["length"]]:
        if not isinstance(k, int) or v is not None and not isinstance(v, bytes):
            raise Unsure("a row of the table %s cannot be read" % name)
        if k and v is not None:
            rows.setdefault(k & 0xffffffff, v)
    return rows, t["default"]


@runs.memo
def applied(kind, builtin, trailing):
    """The transducer of one filter as it is configured."""
    if kind not in CLEANERS:
        raise Unsure("the filter %s is not followed" % kind.lower())
    f, run = c_filters.cleaner(CLEANERS[kind])
    p = runs.prog()
    ptrs = [n for n, t in f.args if t.kind == "ptr"]
    fixed = {("leaf", "arg", n, t.bits): int(bool(trailing)) for n, t in f.args if t.kind == "int"}
    src = ("leaf", "arg", ptrs[0], 64)
    table, rows, default = None, {}, None
    if len(ptrs) > 1:
        if builtin is None:
            raise Unsure("%s with a table that is not a builtin one" % kind.lower())
        table = ("leaf", "arg", ptrs[1], 64)
        rows, default = constant_table(builtin)
    res = []
    for s, rv in run.results:
        if rv.t and all(s.facts.decide("eq", A(at), K(v), at[3]) is not False for at, v in fixed.items()):
            res.append((s, rv))
    m = transduce.Machine(res, src)
    if not m.loops:
        raise Unsure("no loop over the name in %s" % f.name)
    return transduce.Applied(m, c_filters.GETTER, table, p.offset("table_t", "default_translation"), rows, default, fixed)


class Chain:
    """A sequence: its filters one after the other."""

    def __init__(self, filters):
        self.stages = [applied(*x) for x in filters]
        self.start = tuple((st.start, b"") for st in self.stages)

    def next(self, state, c):
        state, data = list(state), bytes((c,))
        for k, st in enumerate(self.stages):
            out = b""
            for x in data:
                if x == 0 and c != 0:
                    # a name ends at its first null byte
                    raise Unsure("a null byte inside the text")
                o, state[k] = st.next(state[k], x)
                out += o
            data = out + (b"\0" if c == 0 else b"")
        return (data[:-1] if c == 0 else data), tuple(state)


def symbols(filters):
    """Pieces of input that tell all states apart: every byte; for UTF-8 the listed characters and, of the others,
    some of each length."""
    if not any(k == "UTF_8" for k, b, t in filters):
        return [bytes((c,)) for c in range(1, 256)]
    out = [bytes((c,)) for c in range(1, 128)]
    for k, b, t in filters:
        if k == "UTF_8":
            out += [chr(c).encode() for c in constant_table(b)[0] if 0x80 <= c < 0x110000 and not 0xd800 <= c < 0xe000]
    out += [bytes((c,)) for c in (0x80, 0xbf, 0xc3, 0xe2, 0xf0, 0xf8, 0xff)]
    out += [chr(c).encode() for c in (0xff, 0x3b1, 0x7ff, 0x800, 0x4e00, 0xfffd, 0x10000, 0x1f600, 0x10ffff)]
    return sorted(set(out))


def twice(rep, rule, name, filters):
    """Explores the sequence composed with itself: a first difference is returned as (input, once, twice)."""
    T = Chain(filters)
    syms = symbols(filters)
    start = (T.start, T.start, b"", b"")
    seen, todo, steps = {start: None}, deque([start]), 0

    def word(node):
        out = []
        while seen[node] is not None:
            node, x = seen[node]
            out.append(x)
        return b"".join(reversed(out))

    def advance(node, x):
        a, b, ahead, behind = node      # what once wrote and twice has not yet, and the other way round
        once, again = ahead, behind
        for c in x:
            o, a = T.next(a, c)
            once += o
            feed = o if c else o + b"\0"
            for d in feed:
                if d == 0 and c != 0:
                    raise Unsure("a null byte inside the text")
                o2, b = T.next(b, d)
                again += o2
        n = 0
        while n < len(once) and n < len(again) and once[n] == again[n]:
            n += 1
        return a, b, once[n:], again[n:]
    while todo:
        node = todo.popleft()
        for x in syms + [b"\0"]:
            steps += 1
            r = advance(node, x)
            a, b, once, again = r
            if (once and again) or (x == b"\0" and (once or again)):
                return word(node) + x.rstrip(b"\0"), steps, len(seen)
            if x == b"\0":
                rep.ok(rule, "sequence %s" % name)
                continue
            if len(once) > 64 or len(again) > 64 or len(seen) > 20000:
                raise Unsure("the comparison does not stay finite")
            if r not in seen:
                seen[r] = (node, x)
                todo.append(r)
    return None, steps, len(seen)


def through(filters, data):
    T = Chain(filters)
    st, out = T.start, b""
    for c in data + b"\0":
        o, st = T.next(st, c)
        out += o
    return out


def c39(rep):
    p = runs.prog()
    rule = rep.rule("stable", "what the sequence makes of a name it makes of that result again")
    r = c_grammar.spoof_run()
    done = set()
    for s, rv in r.results:
        try:
            h = c_grammar.Heap(p, s)
            b, o = s.split(rv)
            if b is None:
                raise Unknown("what is returned")
            by = {n: k for k, n in p.kinds.items()}
            for q in c_grammar.chain(h, h.pointer(b, "config_file_t", "sequences"), "sequence_t_ref"):
                name, fs = h.text(q, "sequence_t_ref", "name"), []
                for x in c_grammar.chain(h, h.pointer(q, "sequence_t_ref", "filters"), "filter_t_ref"):
                    kind = by.get(h.number(x, "filter_t_ref", "cleaner"), "?")
                    bt = h.text(x, "filter_t_ref", "builtin") if kind in ("SAFE", "ISO8859_1", "UTF_8") else None
                    fs.append((kind, bt, bool(h.number(x, "filter_t_ref", "remove_trailing")) if kind == "WIPEUP" else False))
                if (name, tuple(fs)) in done or any(k not in ("SAFE", "WIPEUP", "LOWER", "UTF_8") for k, b2, t in fs):
                    continue
                done.add((name, tuple(fs)))
                judge(rep, rule, name, fs)
        except Unknown as x:
            rep.unsure(rule, r.root, "what is built could not be followed: %s" % x)


def judge(rep, rule, name, fs):
    where = "sequence %s" % name
    try:
        w, steps, states = twice(rep, rule, name, fs)
        rep.note(sequences=1, product_states=states, transitions=steps)
        if w is not None:
            a = through(fs, w)
            rep.bad(rule, where, "%r becomes %r, and that becomes %r" % (w, a, through(fs, a)))
    except (Unsure, Unknown) as e:
        rep.unsure(rule, where, str(e))
    except transduce.Mismatch as e:
        rep.unsure(rule, where, str(e))
