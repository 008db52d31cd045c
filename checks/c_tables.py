"""C17, C33, C36, C37: translation tables, the builtin ones, table files, and lists of names."""
import os
import re

import interp
import libc
import program
import runs
from c_files import At, iterations, loops
from engine import INF, show_parts
from interp import Engine
from runs import Run, memo
from terms import *  # noqa: F401,F403
from walks import field, is_field


def site(e):
    return e.loc()


def arg(f, k, bits=64):
    return ("leaf", "arg", f.args[k][0], bits)


def split_ptr(eng, v):
    """(base atom, offset) of a pointer value."""
    for at, c in v.t:
        if c == 1 and (at[0] == "obj" or at in eng.ptrs or at[0] == "leaf" and at[1] in ("mem", "arg", "ret") and at[-1] == 64):
            return at, sub(v, A(at))
    return None, v


def over(x, n):
    """x / n if every coefficient is a multiple."""
    if x.c % n or any(c % n for _, c in x.t):
        return None
    y = K(x.c // n)
    for at, c in x.t:
        y = add(y, scale(A(at), c // n))
    return y


class Shape:
    """The structures of tables, found in the program."""

    def __init__(self, p):
        self.p = p
        self.row = p.structs["table_row_t"]
        from llir import sizeof
        self.size = sizeof(self.row)
        self.key, self.data = p.offset("table_row_t", "key"), p.offset("table_row_t", "data")
        for n in ("length", "used", "rows", "max_data_length", "max_key", "default_translation", "use_hash"):
            setattr(self, n, p.offset("table_t", n))

    def tfield(self, at, base, name):
        f = field(at)
        return f is not None and f[0] == base and f[1] == "table_t" and f[2] == getattr(self, name)

    def rowptr(self, at, base):
        """at is the array of rows of the table at base."""
        return self.tfield(at, base, "rows")

    def row_leaf(self, at, base):
        """(index, "key" or "data") if at is the value of a field of a row of the table at base."""
        if at[0] != "leaf" or at[1] != "mem" or not isinstance(at[4], tuple):
            return None
        c = at[4][-1]
        if not (isinstance(c, tuple) and c[0] == "f" and c[1] == "table_row_t") or not self.rowptr(at[2], base):
            return None
        off = at[3] if isinstance(at[3], Lin) else K(at[3])
        x = over(addc(off, -c[2]), self.size)
        if x is None:
            return None
        return x, "key" if c[2] == self.key else "data"

    def rows_known(self, fx, base):
        """index -> the key leaf, of the rows whose key the path knows something about."""
        out = {}
        for at in known_atoms(fx):
            r = self.row_leaf(at, base)
            if r is not None and r[1] == "key":
                out.setdefault(r[0], []).append(at)
        return out

    def value(self, fx, base, name):
        return [A(at) for at in known_atoms(fx) if self.tfield(at, base, name)]


def known_atoms(fx):
    out = set()
    for at in list(fx.dom) + list(fx.iv):
        atoms_of(A(at), out)
    for c, _ in fx.pred:
        atoms_of(c, out)
    for x in list(fx.lin) + list(fx.ne):
        atoms_of(x, out)
    return out


def either(vals):
    """Verdict over several readings of the same thing."""
    vals = [v for v in vals]
    return True if True in vals else False if vals and all(v is False for v in vals) else None


@memo
def table_run(name, opaque=(), nonnull=()):
    p = runs.prog()
    f = p.need(name)
    e = Engine(p, opaque=[o for o in opaque if p.fn(o) is not None], record={"access"}, budget=1000000)
    e.merge_limit = 1 << 30
    return f, Run(e, e.run_root(f, nonnull=tuple(n for n in nonnull if any(n == a for a, _ in f.args))), f.name)


def key_is(sh, fx, base, x, key):
    """Whether the key of row x equals `key` on the path."""
    got = [fx.decide("eq", A(at), key, 32) for y, ats in sh.rows_known(fx, base).items() if y == x or fx.eq0(sub(x, y))
           for at in ats]
    return either(got) if got else None


def scans(sh, run, base, passed, rep, rule):
    """Loops over the rows: id -> (loop, whether each row passed over satisfies `passed`, the loop's counter)."""
    out = {}
    for lp in loops(run):
        verdict, seen = True, False
        N = lp.N
        for h, s, evs in iterations(lp):
            touched = [y for y in sh.rows_known(s.facts, base) if single(N) in atoms_of(y)]
            if not touched:
                verdict = None if verdict is True else verdict
                continue
            seen = True
            if any(y != N for y in touched):
                verdict = None if verdict is True else verdict
                continue
            v = passed(s.facts, N)
            if v is not True:
                verdict = v if verdict is True else False if v is False else verdict
        if seen:
            out[id(lp)] = (lp, verdict)
    return out


def completed(sh, s, evs, full, base):
    """The verdict on the scan the path went through to the end, or None if there was none; "part" if it left early."""
    fx = s.facts
    got = None
    for e in evs:
        if e.kind == "loop-exit" and id(e.x["loop"]) in full:
            lp, ok = full[id(e.x["loop"])]
            L = sh.value(fx, base, "length")
            done = any(fx.ge0(sub(lp.N, x)) for x in L)
            got = (True if done else "part", ok)
    return got


def in_rows(sh, fx, base, x):
    """Whether row x lies in the array: True, False, None."""
    at = single(x)
    L = sh.value(fx, base, "length")
    if at is not None and at[0] == "op" and at[1] == "urem":
        b = at[-1]
        if isinstance(b, Lin):
            for y, c in b.t:
                if c == 1 and sh.tfield(y, base, "length"):
                    d = sub(b, A(y))
                    return True if d == K(0) else False if not d.t and d.c > 0 else None
        return None
    if fx.ge0(x) and any(fx.ge0(addc(sub(l, x), -1)) for l in L):
        return True
    if any(fx.ge0(sub(x, l)) for l in L) or fx.ge0(addc(scale(x, -1), -1)):
        return False
    if L and any(sub(l, x) for l in L) and fx.ge0(x):
        # the index is bounded by the length, but not strictly
        if any(fx.ge0(sub(l, x)) for l in L):
            return False
    return None


def judge_access(sh, rep, rule, run, base):
    n = 0
    for _, e in run.events("load", "store"):
        if not e.args or not e.args[0].t:
            continue
        b, off = split_ptr(run.eng, e.args[0])
        if b is None or not sh.rowptr(b, base):
            continue
        n += 1
        x = None
        for o in (sh.key, sh.data):
            x = over(addc(off, -o), sh.size)
            if x is not None:
                break
        if x is None:
            rep.unsure(rule, site(e), "offset %s" % show(off))
            continue
        rep.judge(rule, site(e), in_rows(sh, e.facts, base, x), "row %s" % show(x)[:120])
    return n


def c17(rep):
    p = runs.prog()
    found = rep.rule("found", "table_get returns the text of a row only if that row's key equals the key asked for, and nothing "
                     "only for key zero, without a table, or when every row's key was seen to differ")
    put = rep.rule("stored", "table_put stores key and copy of the text into one row: the row the hash names if it is free or "
                   "holds the key, else the first one that is free or holds the key")
    fail = rep.rule("refused", "table_put fails without storing anything for key zero or a full table, and only then")
    count = rep.rule("counted", "the number of rows in use grows by one exactly when a free row is taken, and the longest text "
                     "and the largest key are kept up to date")
    bound = rep.rule("in the rows", "every access to a row lies inside the array of rows")
    init = rep.rule("new table", "a new table has as many empty, zeroed rows as its length says, and at least one")
    whole = rep.rule("copied", "a resized table gets every row of the old one")
    sh = Shape(p)
    T = None
    # ---- get
    f, r = table_run("table_get", (), ("table",))
    rep.note(functions=1, paths=len(r.results), event_nodes=len(r.nodes))
    base, key = arg(f, 0), A(arg(f, 1, 32))
    key = next((A(a) for s, _ in r.results for a in known_atoms(s.facts) if a[:3] == ("leaf", "arg", f.args[1][0])), key)
    full = scans(sh, r, base, lambda fx, x: inv(key_is(sh, fx, base, x, key)), rep, found)
    for lp, ok in full.values():
        rep.judge(found, "table_get:%s" % lp.key[1], ok, "a row is passed over although its key may be the one asked for")
    for s, rv in r.results:
        fx, evs = s.facts, s.events()
        if rv == K(0):
            got = completed(sh, s, evs, full, base)
            if fx.decide("eq", key, K(0), 32) is True:
                rep.ok(found, "table_get nothing", "the key is zero")
            elif got is None:
                rep.judge(found, "table_get nothing", False if not full or not any(
                    e.kind == "loop-exit" for e in evs) else None, "nothing is found although the rows were not searched")
            else:
                rep.judge(found, "table_get nothing", False if got[0] == "part" else got[1],
                          "nothing is found although the search ended early")
            continue
        at = single(rv)
        row = sh.row_leaf(at, base) if at is not None else None
        if row is None or row[1] != "data":
            rep.unsure(found, "table_get", "what is returned is not the text of a row: %s" % show(rv)[:150])
            continue
        v = key_is(sh, fx, base, row[0], key)
        odd = any(a[0] == "op" and a[1] in ("xor", "or", "and") for c, _ in fx.pred for a in atoms_of(c))
        rep.judge(found, "table_get row", False if v is None and not odd else v,
                  "the text of row %s is returned without its key being the one asked for" % show(row[0])[:100])
    n = judge_access(sh, rep, bound, r, base)
    # ---- put
    f, r = table_run("table_put", ("wrapped_strdup",), ("table", "data"))
    rep.note(functions=1, paths=len(r.results), event_nodes=len(r.nodes))
    base = arg(f, 0)
    key = next((A(a) for s, _ in r.results for a in known_atoms(s.facts) if a[:3] == ("leaf", "arg", f.args[1][0])), key)
    text = A(arg(f, 2))

    def taken(fx, x):
        a, b = key_is(sh, fx, base, x, key), key_is(sh, fx, base, x, K(0))
        if a is False and b is False:
            return True
        return False if a is not False and b is False or a is False or a is None and b is None else None
    full = scans(sh, r, base, taken, rep, put)
    for lp, ok in full.values():
        rep.judge(put, "table_put:%s" % lp.key[1], ok, "a row is passed over although it may be free or hold the key")
    for s, rv in r.results:
        fx, evs = s.facts, s.events()
        if fx.decide("eq", A(base), K(0), 64) is True:
            continue
        stores = [e for e in evs if e.kind in ("store", "store8") and split_ptr(r.eng, e.args[0])[0] is not None and (
            split_ptr(r.eng, e.args[0])[0] == base or sh.rowptr(split_ptr(r.eng, e.args[0])[0], base))]
        L, U = sh.value(fx, base, "length"), sh.value(fx, base, "used")
        zero = fx.decide("eq", key, K(0), 32)
        room = either([inv(fx.decide("eq", x, y, 32)) for x in L for y in U])
        if rv.c < 0 and not rv.t:
            rep.judge(fail, "table_put fails", not stores, "the table is changed although storing fails")
            got = completed(sh, s, evs, full, base)
            why = zero is True or room is False or any(fx.ge0(sub(y, x)) for x in L for y in U)
            if not why and got is not None:
                why = got[1] if got[0] is True else False
            rep.judge(fail, "table_put fails", why, "storing fails although the key is not zero and the table is not full")
            continue
        rep.judge(fail, "table_put stores", zero is False, "key zero may be stored")
        rep.judge(fail, "table_put stores", True if room is True or any(fx.ge0(addc(sub(x, y), -1)) for x in L for y in U) else
                  False if room is None else room, "a row may be stored into a full table")
        rows = {}
        other = []
        for e in stores:
            b, off = split_ptr(r.eng, e.args[0])
            if b != base:
                for o, nm in ((sh.key, "key"), (sh.data, "data")):
                    x = over(addc(off, -o), sh.size)
                    if x is not None:
                        rows.setdefault(x, {})[nm] = (e.args[1], e)
            else:
                other.append((off, e))
        if len(rows) != 1:
            rep.judge(put, "table_put", False if not rows or len(rows) > 1 and all(
                len(v) == 2 for v in rows.values()) else None, "%d rows are written" % len(rows))
            continue
        x, got = next(iter(rows.items()))
        where = "table_put row"
        held = key_is(sh, fx, base, x, key)
        if "key" in got:
            rep.judge(put, where, got["key"][0] == key or fx.eq0(sub(got["key"][0], key)), "the key stored is %s" % show(got["key"][0]))
        else:
            rep.judge(put, where, held, "the key is not stored")
        if "data" in got:
            v = got["data"][0]
            dup = [e for e in evs if e.kind == "call" and e.name == "wrapped_strdup" and e.ret == v]
            if dup:
                ok = dup[0].args[0] == text
            else:
                b, o = s.split(v)
                c = s.content(b, o) if b is not None else None
                ok = False if v == text else True if c is not None and len(c) == 1 and c[0][0] == "src" and \
                    A(c[0][1]) == text and c[0][2] == K(0) else None
            rep.judge(put, where, ok, "the text stored is not a copy of the one given: %s" % show(v))
        else:
            rep.bad(put, where, "the text is not stored")
        rep.judge(put, where, rv == x or fx.eq0(sub(rv, x)), "%s is reported for row %s" % (show(rv)[:60], show(x)[:60]))
        free = key_is(sh, fx, base, x, K(0))
        rep.judge(put, where, True if held is True or free is True else False,
                  "the row that is overwritten may hold another key")
        if single(x) is not None and single(x)[0] == "op":
            a = {y for y in atoms_of(x) if y[0] == "leaf" and y != single(key) and not sh.tfield(y, base, "length") and y != base}
            rep.judge(put, where, not a, "the row depends on more than the key and the length")
        else:
            # found by the search: the row the hash names must have been taken
            h = [y for y in sh.rows_known(fx, base) if single(y) is not None and single(y)[0] == "op"]
            uh = sh.value(fx, base, "use_hash")
            off = either([fx.decide("eq", u, K(0), 32) for u in uh])
            if off is not True and h:
                rep.judge(put, where, True if any(taken(fx, y) is True for y in h) else False,
                          "the search is used although the row the hash names may be free")
            elif off is not True:
                rep.unsure(put, where, "no row is named by a hash")
        # counters
        vals = {}
        for o, e in other:
            vals[o.c if not o.t else None] = e.args[1]
        inc = vals.get(sh.used)
        if held is True:
            rep.judge(count, where, inc is None or any(inc == u for u in U), "used changes although the key was there")
        elif free is True:
            rep.judge(count, where, inc is not None and any(fx.eq0(sub(inc, addc(u, 1))) for u in U),
                      "used does not grow by one although a free row is taken")
        mx = vals.get(sh.max_data_length)
        M = sh.value(fx, base, "max_data_length")
        lens = [A(a) for a in known_atoms(fx) if a[0] == "leaf" and a[1] == "strlen" and a[2] == single(text)]
        if mx is not None:
            ok = any(fx.eq0(sub(mx, l)) for l in lens)
            rep.judge(count, where, ok and any(at_least(fx, l, m) for l in lens for m in M) or False,
                      "the longest text becomes %s" % show(mx)[:80])
        else:
            rep.judge(count, where, any(at_least(fx, m, l) for l in lens for m in M),
                      "the longest text is not updated although the new one may be longer")
        mk = vals.get(sh.max_key)
        M = sh.value(fx, base, "max_key")
        if mk is not None:
            rep.judge(count, where, mk == key and any(at_least(fx, key, m) for m in M), "the largest key becomes %s" % show(mk)[:80])
        else:
            rep.judge(count, where, any(at_least(fx, m, key) for m in M),
                      "the largest key is not updated although the new one may be larger")
    n += judge_access(sh, rep, bound, r, base)
    rep.note(row_accesses=n)
    new_table(rep, p, sh, init)
    resized(rep, p, sh, whole)


def at_least(fx, x, y):
    """x >= y, as numbers that are not negative."""
    if fx.ge0(sub(x, y)):
        return True
    for w in (64, 32):
        for pr, a, b in (("uge", x, y), ("ule", y, x), ("sge", x, y), ("sle", y, x)):
            if fx.decide(pr, a, b, w) is True:
                return True
    for c, t in fx.pred:
        if c[0] == "cmp" and {c[3], c[4]} == {x, y}:
            pr = c[1] if t else NOT[c[1]]
            if pr[0] in "us" and (pr[1:] in ("ge", "gt") if c[3] == x else pr[1:] in ("le", "lt")):
                return True
    return False


NOT = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule", "slt": "sge", "sge": "slt",
       "sle": "sgt", "sgt": "sle"}


def inv(v):
    return None if v is None else not v


def new_table(rep, p, sh, init):
    f, r = table_run("table_init")
    rep.note(functions=1, paths=len(r.results), event_nodes=len(r.nodes))
    rows = A(arg(f, 0, 32))
    rows = next((A(a) for s, _ in r.results for a in known_atoms(s.facts) if a[:3] == ("leaf", "arg", f.args[0][0])), rows)
    for s, rv in r.results:
        fx, evs = s.facts, s.events()
        at = single(rv)
        if rv == K(0):
            continue
        if at is None or at[0] != "obj":
            rep.unsure(init, "table_init", "what is returned is not a new object: %s" % show(rv))
            continue
        st = {}
        zeroed = {}
        sizes = {}
        for e in evs:
            if e.kind == "alloc":
                sizes[single(e.args[0])] = e.args[1]
                if e.name == "calloc":
                    zeroed[single(e.args[0])] = e.args[1]
            elif e.kind == "write" and e.name == "memset":
                b, o = split_ptr(r.eng, e.args[0])
                if o == K(0):
                    zeroed[b] = e.args[1]
                    if b == at:
                        st.clear()
            elif e.kind == "store":
                b, o = split_ptr(r.eng, e.args[0])
                if b == at and not o.t:
                    st[o.c] = e.args[1]
        length = st.get(sh.length)
        arr = single(st[sh.rows]) if sh.rows in st and st[sh.rows].t else None
        if length is None or arr is None or arr not in sizes:
            rep.judge(init, "table_init", False if length is None or arr is None else None, "length or rows are not set")
            continue
        rep.judge(init, "table_init", fx.ge0(addc(length, -1)), "the length may be %s" % show(length))
        need = scale(length, sh.size)
        room = fx.ge0(sub(sizes[arr], need))
        rep.judge(init, "table_init", room, "%s bytes for %s rows" % (show(sizes[arr])[:60], show(length)[:40]))
        z = zeroed.get(arr)
        rep.judge(init, "table_init", z is not None and fx.ge0(sub(z, need)), "the rows are not emptied")
        z = zeroed.get(at)
        todo = [sh.used, sh.max_data_length, sh.max_key, sh.default_translation]
        for o in todo:
            v = st.get(o)
            rep.judge(init, "table_init", v == K(0) if v is not None else z is not None and not z.t and z.c >= o + 4,
                      "%s is not set to nothing" % p.field("table_t", o))
        # the size asked for is the size made, if it is one
        if fx.ge0(addc(rows, -1)):
            rep.judge(init, "table_init", fx.ge0(sub(length, rows)), "%s rows are made when %s are asked for" % (
                show(length)[:40], show(rows)[:40]))


def resized(rep, p, sh, whole):
    f, r = table_run("table_resize", ("table_put", "table_init", "wrapped_strdup"))
    rep.note(functions=1, paths=len(r.results), event_nodes=len(r.nodes))
    old = arg(f, 0)
    full = {}
    for lp in loops(r):
        verdict = None
        for h, s, evs in iterations(lp):
            fx = s.facts
            known = {y for y in sh.rows_known(fx, old)}
            calls = [e for e in evs if e.kind == "call" and e.name == "table_put"]
            if not known and not calls:
                continue
            where = "table_resize:%s" % lp.key[1]
            if any(y != lp.N for y in known):
                rep.unsure(whole, where, "rows %s" % " ".join(show(y)[:60] for y in known))
                verdict = None
                break
            data = [A(a) for a in known_atoms(fx) if (sh.row_leaf(a, old) or (None, None)) == (lp.N, "data")]
            none = key_is(sh, fx, old, lp.N, K(0)) is True or any(fx.decide("eq", d, K(0), 64) is True for d in data)
            v = True
            if not calls:
                v = none
                rep.judge(whole, where, v, "a row is left out")
            else:
                e = calls[-1]
                k, d = sh.row_leaf(single(e.args[1]), old) if single(e.args[1]) else None, \
                    sh.row_leaf(single(e.args[2]), old) if single(e.args[2]) else None
                new = e.args[0] in {x.ret for x in s.events() if x.kind == "call" and x.name == "table_init"}
                v = k == (lp.N, "key") and d == (lp.N, "data") and len(calls) == 1 and new
                rep.judge(whole, where, v, "row %s is stored as key %s, text %s" % (
                    show(lp.N), show(e.args[1])[:80], show(e.args[2])[:80]))
            verdict = v if verdict in (None, True) else verdict
        if verdict is not None:
            full[id(lp)] = (lp, verdict)
    for s, rv in r.results:
        fx, evs = s.facts, s.events()
        inits = [e for e in evs if e.kind == "call" and e.name == "table_init"]
        if not inits:
            rep.unsure(whole, "table_resize", "no new table is made")
            continue
        new = inits[-1].ret
        if fx.decide("eq", new, K(0), 64) is True:
            rep.judge(whole, "table_resize", rv == A(old), "%s is returned when no new table can be made" % show(rv))
            continue
        rep.judge(whole, "table_resize", rv == new, "%s is returned" % show(rv))
        rep.judge(whole, "table_resize", inits[-1].args[0] in [A(a) for a in atoms_of(inits[-1].args[0])] and
                  single(inits[-1].args[0])[:3] == ("leaf", "arg", f.args[1][0]), "the new table has %s rows" % show(inits[-1].args[0]))
        if fx.decide("eq", A(old), K(0), 64) is True:
            continue
        got = completed(sh, s, evs, full, old)
        rep.judge(whole, "table_resize", False if got is None and not full or got is not None and got[0] == "part" else
                  got[1] if got is not None else None, "not every row of the old table is looked at")
        # the default
        d = [A(a) for a in known_atoms(fx) if sh.tfield(a, old, "default_translation")]
        st = [e for e in evs if e.kind == "store" and e.name == ("f", "table_t", sh.default_translation)]
        isnull = either([fx.decide("eq", x, K(0), 64) for x in d])
        if isnull is True:
            rep.judge(whole, "table_resize default", not st or st[-1].args[1] == K(0), "a default appears")
        elif st:
            dup = [e for e in evs if e.kind == "call" and e.name == "wrapped_strdup" and e.ret == st[-1].args[1]]
            ok = bool(dup) and sh.tfield(single(dup[-1].args[0]) or ("?",), old, "default_translation")
            rep.judge(whole, "table_resize default", True if ok else None, "the default becomes %s" % show(st[-1].args[1])[:80])
        else:
            rep.bad(whole, "table_resize default", "the default is lost")
        # the old table is left alone
        for e in evs:
            if e.kind in ("store", "store8"):
                b, _ = split_ptr(r.eng, e.args[0])
                if b == old or b is not None and sh.rowptr(b, old):
                    rep.bad(whole, site(e), "the old table is changed")
    rep.note(row_loops=len(full))


# ---------------------------------------------------------------- C33: the builtin tables

def read_table(path):
    """(rows, default) of a table file, as its format is documented: comments, default, start and end, rows."""
    rows, default, inside = {}, None, False
    with open(path, "rb") as f:
        for ln in f.read().split(b"\n"):
            if ln[:1] == b"#" or not ln.strip():
                continue
            word = ln.split()[0]
            rest = ln.strip()[len(word):].strip()
            if not inside:
                if word.lower().startswith(b"start"):
                    if rest:
                        raise ValueError("a block for one locale only")
                    inside = True
                elif word.lower().startswith(b"default"):
                    default = unquote(rest) if rest else None
                continue
            m = re.match(rb"([-+]?)(0[xX][0-9a-fA-F]+|[0-9]+)", word)
            if m is None or m.group(1) == b"-":
                if word.lower() == b"end":
                    inside = False
                continue
            n = m.group(2)
            code = int(n, 16) if n[:2].lower() == b"0x" else int(n, 8) if n[:1] == b"0" else int(n)
            rest = ln.strip()[m.end():].strip()
            if rest:
                rows[code] = unquote(rest)
    return rows, default


def unquote(b):
    if b[:1] in (b'"', b"'"):
        return b[1:].split(b[:1])[0]
    return b.split()[0]


def c_string(p, addr):
    """The bytes of the constant string at an address ('addr', global, offset)."""
    import interp
    if not (isinstance(addr, tuple) and addr[0] == "addr"):
        return None
    g = p.globals.get(addr[1])
    if g is None:
        return None
    out = bytearray()
    while True:
        b = interp.const_at(p, g.module, g.ty, g.init, addr[2] + len(out), 1)
        if not isinstance(b, int):
            return None
        if b == 0:
            return bytes(out)
        out.append(b & 255)


def read_global(p, sh, g, base):
    """The fields and the rows of an initialised table; None where one cannot be read."""
    import interp
    from llir import sizeof
    at = lambda x, o, n: interp.const_at(p, x.module, x.ty, x.init, o, n)  # noqa: E731
    t = {n: at(g, base + getattr(sh, n), 4) for n in ("length", "used", "max_data_length", "max_key", "use_hash")}
    t["builtin"] = at(g, base + p.offset("table_t", "builtin"), 4)
    d = at(g, base + sh.default_translation, 8)
    t["default"] = None if d == 0 else c_string(p, d)
    t["default known"] = d == 0 or t["default"] is not None
    a = at(g, base + sh.rows, 8)
    t["rows"], t["room"] = None, None
    if isinstance(a, tuple) and a[0] == "addr" and p.globals.get(a[1]) is not None:
        ra = p.globals[a[1]]
        t["room"] = (sizeof(ra.ty) - a[2]) // sh.size
        rows = []
        for n in range(t["room"]):
            k, s = at(ra, a[2] + n * sh.size + sh.key, 4), at(ra, a[2] + n * sh.size + sh.data, 8)
            rows.append((k, None if s == 0 else c_string(p, s) if not isinstance(s, int) else s))
        t["rows"], t["array"] = rows, ra
    return t


BUILTINS = ("safe", "unicode", "iso8859_1", "cp1252")


def c33(rep):
    p = runs.prog()
    sh = Shape(p)
    rep.need.update({"loaded": 4, "rows": 4, "default": 4, "recorded": 4, "capacity": 4})
    for name in BUILTINS:
        loader = "load_builtin_%s_table" % name
        f, r = table_run(loader, ("table_resize",))
        rep.note(functions=1, paths=len(r.results), event_nodes=len(r.nodes))
        where = loader
        src = os.path.join(program.REPO, "table", name + ".tbl")
        try:
            want, default = read_table(src)
        except (OSError, ValueError, IndexError) as e:
            rep.unsure("loaded", where, "table/%s.tbl cannot be read here: %s" % (name, e))
            continue
        ok, tabs = True, set()
        for s, rv in r.results:
            evs = s.events()
            if rv == K(0):
                if any(e.kind == "call" and e.name == "table_resize" and s.facts.eq0(lin_of(e.ret)) for e in evs):
                    rep.ok("loaded", where)  # the copy itself failed
                    continue
                rep.bad("loaded", where, "%s returns no table on a path" % loader)
                ok = False
                continue
            call = next((e for e in reversed(evs) if e.kind == "call" and e.name == "table_resize"), None)
            if call is None or lin_of(call.ret) != rv:
                own = own_table(p, rv)
                if own is not None:
                    tabs.add((own, None, where))
                else:
                    rep.unsure("loaded", where, "%s does not return the result of table_resize" % loader)
                    ok = None
                continue
            g = own_table(p, call.args[0])
            if g is None:
                rep.unsure("loaded", call.loc(), "the table that is copied is not a constant one")
                ok = None
                continue
            tabs.add((g, call.args[1], call.loc()))
        if not tabs:
            if ok is not None and not r.results:
                rep.unsure("loaded", where, "%s does not return on any path" % loader)
            continue
        rep.ok("loaded", where)
        for (key, base), room, loc in sorted(tabs, key=str):
            g = p.globals.get(key)
            t = read_global(p, sh, g, base) if g is not None and g.init is not None else None
            if t is None or t["rows"] is None or not isinstance(t["length"], int):
                rep.unsure("rows", loc, "the initialiser of %s cannot be read" % key)
                continue
            judge_builtin(rep, p, sh, name, g, t, want, default, room, loc)


def lin_of(v):
    return v if isinstance(v, Lin) else A(v)


def own_table(p, v):
    if isinstance(v, Lin):
        at = next((a for a, c in v.t if c == 1 and a[0] == "obj"), None)
        off = sub(v, A(at)) if at is not None else None
        if at is not None and not off.t and str(at[1]).startswith("@"):
            return str(at[1])[1:], off.c
    return None


def judge_builtin(rep, p, sh, name, g, t, want, default, room, loc):
    where = g.key
    n = t["length"]
    rep.note(rows=len(t["rows"]), keys=len(want))
    if n < 0 or n > t["room"]:
        rep.bad("recorded", where, "length %d of the builtin table %s is more than the %d rows it has" % (n, name, t["room"]))
        n = min(max(n, 0), t["room"])
    elif n < t["room"]:
        extra = [r for r in t["rows"][n:] if r[0] != 0]
        if extra:
            rep.bad("recorded", where, "length %d of the builtin table %s leaves out rows of its array: the first has key 0x%04x"
                    % (n, name, extra[0][0]))
        else:
            rep.ok("recorded", where)
    have = {}
    rows = t["rows"][:n]
    unread = [r for r in rows if not isinstance(r[0], int)]
    if unread:
        rep.unsure("rows", where, "keys of %d rows cannot be read" % len(unread))
        return
    for k, s in rows:
        k &= 0xffffffff
        if k != 0 and s is not None:
            have[k] = s
    good = True
    for k in sorted(set(want) | set(have)):
        if k not in have:
            rep.bad("rows", where, "key 0x%04x of table/%s.tbl is not in the builtin table" % (k, name))
        elif k not in want:
            rep.bad("rows", where, "key 0x%04x of the builtin table %s is not in table/%s.tbl" % (k, name, name))
        elif isinstance(have[k], int):
            rep.unsure("rows", where, "the replacement of key 0x%04x cannot be read" % k)
        elif have[k] != want[k]:
            rep.bad("rows", where, "key 0x%04x of the builtin table %s has %r, table/%s.tbl has %r"
                    % (k, name, have[k], name, want[k]))
        else:
            continue
        good = False
        break
    if good:
        for _ in want:
            rep.ok("rows", where)
    if not t["default known"]:
        rep.unsure("default", where, "the default of the builtin table %s cannot be read" % name)
    elif t["default"] != default:
        rep.bad("default", where, "the builtin table %s has the default %r, table/%s.tbl has %r"
                % (name, t["default"], name, default))
    else:
        rep.ok("default", where)
    keyed = [(k & 0xffffffff, s) for k, s in rows if k]
    if any(s is None or isinstance(s, int) for _, s in keyed):
        rep.unsure("recorded", where, "a row of the builtin table %s has a key and no readable replacement" % name)
        return
    facts = {"used": len({k for k, _ in keyed}), "max_data_length": max([len(s) for _, s in keyed] or [0]),
             "max_key": max([k for k, _ in keyed] or [0])}
    for fld, v in sorted(facts.items()):
        if t[fld] == v:
            rep.ok("recorded", where)
        elif isinstance(t[fld], int):
            rep.bad("recorded", where, "%s of the builtin table %s is %d, its rows make it %d" % (fld, name, t[fld], v))
        else:
            rep.unsure("recorded", where, "%s of the builtin table %s cannot be read" % (fld, name))
    if len({k for k, _ in keyed}) != len(keyed):
        rep.bad("recorded", where, "a key stands in the builtin table %s twice" % name)
    if room is None:
        # used as it is: lookups must not hash, as the rows do not stand where the hash points
        if t["use_hash"] not in (0, None) and len(rows) != len(keyed):
            rep.unsure("capacity", loc, "the builtin table is used in place with hashing on")
        else:
            rep.ok("capacity", loc)
    elif not isinstance(room, Lin) or room.t:
        rep.unsure("capacity", loc, "the size of the copy of the builtin table %s is not constant" % name)
    else:
        c = room.c if 0 < room.c < 1 << 31 else 500
        if c < len(have):
            rep.bad("capacity", loc, "the copy of the builtin table %s has room for %d of its %d rows" % (name, c, len(have)))
        else:
            rep.ok("capacity", loc)


# ---------------------------------------------------------------- C37: lists of names

class Names:
    """The structure of a list of names."""

    def __init__(self, p):
        self.p = p
        for n in ("files", "max", "count", "ptr"):
            setattr(self, n, p.offset("filelist_t", n))

    def now(self, s, base, name):
        """The value of a field at the end of a path."""
        v = s.mem.get((base, K(getattr(self, name))))
        return v[0] if v is not None else None


@memo
def list_run(name, opaque=()):
    """A function on a list that holds what the others maintain: 0 <= ptr <= count <= max, 0 < max."""
    import llir
    p = runs.prog()
    f = p.need(name)
    nm = Names(p)
    e = Engine(p, opaque=[o for o in opaque if p.fn(o) is not None], record={"access"}, budget=1000000)
    e.merge_limit = 1 << 30
    st = e.new_state()
    args, start = [], None
    for n, t in f.args:
        at = e.arg_leaf(n, t)
        e.ivs[at] = (1, INF)
        args.append(A(at))
        if start is None and t.kind == "ptr":
            g = lambda x, ty: st.load_cell(at, K(getattr(nm, x)), ("f", "filelist_t", getattr(nm, x)), ty, None)  # noqa: E731
            types = dict(llir.field_offset(p.structs["filelist_t"], k) for k in range(len(p.structs["filelist_t"].fields)))
            start = {x: g(x, types[getattr(nm, x)]) for x in ("files", "max", "count", "ptr")}
            e.ivs[single(start["files"])] = (4096, INF)
            start["base"] = at
    if start:
        e.ivs[single(start["max"])] = (1, (1 << 31) - 64)
        e.ivs[single(start["count"])] = (0, INF)
        e.ivs[single(start["ptr"])] = (0, INF)
        st.addge(sub(start["max"], start["count"]))
        st.addge(sub(start["count"], start["ptr"]))
    return f, Run(e, e.run_root(f, args, st), f.name), nm, start


def extent(r, start, grown, b):
    """Bytes of the array at b."""
    if b is None:
        return None
    if start and A(b) == start["files"]:
        return scale(start["max"], 8)
    o = r.eng.objs.get(b[1]) if b[0] == "obj" else None
    return o["size"] if o else None


def inside_list(rep, rule, r, start):
    """Every access to an array of names lies inside it."""
    n = 0
    arrays = set()
    for s, _ in r.results:
        for (b, o), (v, c) in s.mem.items():
            if c == ("f", "filelist_t", 0) and v.t:
                arrays.add(split_ptr(r.eng, v)[0])
    if start:
        arrays.add(single(start["files"]))
    for _, e in r.events("load", "store", "read", "write"):
        if not e.args or not isinstance(e.args[0], Lin) or not e.args[0].t:
            continue
        b, off = split_ptr(r.eng, e.args[0])
        if b not in arrays:
            continue
        size = extent(r, start, None, b)
        k = K(8)
        if e.kind in ("read", "write"):
            k = e.args[1] if len(e.args) > 1 else None
        if size is None or k is None or not isinstance(size, Lin):
            rep.unsure(rule, site(e), "the extent of the array is not known")
            continue
        n += 1
        room = sub(sub(size, off), k)
        lo, hi = e.facts.ge0(off), e.facts.ge0(room)
        out = e.facts.ge0(addc(scale(off, -1), -1)) or e.facts.ge0(addc(scale(room, -1), -1))
        if not (lo and hi) and not out:
            # an index that is bounded, but one too far
            out = lo and e.facts.ge0(add(room, K(8))) and not e.facts.ge0(room) and bool(off.t) and tight(e.facts, room)
        rep.judge(rule, site(e), True if lo and hi else False if out else None,
                  "%s bytes at offset %s of an array of %s" % (show(k)[:40], show(off)[:80], show(size)[:80]))
    return n


def tight(fx, room):
    """room may be negative on the path: it can be made so without contradicting what is known."""
    return not any(at[0] == "op" for at in atoms_of(room))


def copies(r, s, evs, old, new, count, size):
    """Whether all names are carried over to the new array: True, False, None."""
    fx = s.facts
    for e in evs:
        if e.kind == "alloc" and e.name in ("realloc", "reallocarray") and e.ret == A(new):
            return e.x.get("src") == old
    for n, e in enumerate(evs):
        if e.kind == "write" and e.name in ("memcpy", "memmove", "mempcpy", "bcopy") and e.args[0] == A(new):
            src = next((x.args[0] for x in evs[n:n + 3] if x.kind == "read" and x.name == e.name), None)
            if src is not None and src == old:
                return True if fx.ge0(sub(e.args[1], scale(count, 8))) else False if fx.ge0(
                    addc(sub(scale(count, 8), e.args[1]), -1)) or not e.args[1].t else None
            return None
    for e in evs:
        if e.kind != "loop-exit":
            continue
        lp = e.x["loop"]
        good = None
        for h, t, its in iterations(lp):
            st = [x for x in its if x.kind == "store" and split_ptr(r.eng, x.args[0])[0] == new]
            if not st:
                good = None if good is None else False
                continue
            ok = None
            for x in st:
                i = over(split_ptr(r.eng, x.args[0])[1], 8)
                v = x.args[1]
                at = single(v)
                if i is None or at is None or at[:2] != ("leaf", "mem"):
                    ok = False if i is not None and not v.t else None
                    continue
                if A(at[2]) == old:
                    j = over(at[3] if isinstance(at[3], Lin) else K(at[3]), 8)
                elif at[2] == ("?",):
                    j = None
                else:
                    j = None
                if j is None:
                    continue
                if j != i and not t.facts.eq0(sub(j, i)):
                    ok = False
                elif i == lp.N or t.facts.eq0(sub(i, addc(sub(count, lp.N), -1))):
                    ok = True
                else:
                    d = sub(i, lp.N)
                    ok = False if not d.t and d.c > 0 else None
            good = ok if good in (None, True) else good
        if good is None and not any(x.kind == "store" and split_ptr(r.eng, x.args[0])[0] == new
                                    for _, _, its in iterations(lp) for x in its):
            continue
        if good is not True:
            return good
        if fx.ge0(sub(lp.N, count)):
            return True
        return False
    return False


def c37(rep):
    p = runs.prog()
    get = rep.rule("got", "filelist_get returns the name at the position and moves on by one, and nothing only behind the last "
                   "name, where it goes back to the first")
    put = rep.rule("put", "filelist_put stores a copy of the name behind the last one and counts it")
    grow = rep.rule("kept", "when the array is replaced by a larger one, every name is carried over, in its place")
    room = rep.rule("room", "the array has room for as many names as the list's maximum says, and the maximum covers the count")
    bound = rep.rule("in the array", "every access to the array of names lies inside it")
    new = rep.rule("new list", "a new list is empty, at its start and has room")
    res = rep.rule("reset", "a reset goes back to the first name and changes nothing else")
    rep.rule("counted", "filelist_count returns the number of names")
    n = 0

    def same(s, nm, st, names):
        for x in names:
            v = nm.now(s, st["base"], x)
            if v is not None and v != st[x] and not s.facts.eq0(sub(v, st[x])):
                return x, v
        return None
    # ---- get
    f, r, nm, st = list_run("filelist_get")
    rep.note(functions=1, paths=len(r.results), event_nodes=len(r.nodes))
    for s, rv in r.results:
        fx = s.facts
        pos = nm.now(s, st["base"], "ptr")
        pos = st["ptr"] if pos is None else pos
        odd = same(s, nm, st, ("files", "max", "count"))
        rep.judge(get, "filelist_get", odd is None, "%s becomes %s" % (odd[0], show(odd[1])[:60]) if odd else "")
        if rv == K(0):
            end = fx.eq0(sub(st["ptr"], st["count"]))
            more = fx.ge0(addc(sub(st["count"], st["ptr"]), -1))
            looked = {single(st["ptr"]), single(st["count"])} & known_here(fx, f)
            rep.judge(get, "filelist_get nothing", True if end else False if more or not looked or "ptr" and bounded(fx, st) else None,
                      "nothing is returned although the position may not be behind the last name")
            rep.judge(get, "filelist_get nothing", True if pos == K(0) or fx.eq0(pos) else False if single(pos) is not None or not pos.t
                      else None, "at the end the position becomes %s" % show(pos)[:60])
            continue
        at = single(rv)
        if at is None or at[:2] != ("leaf", "mem") or A(at[2]) != st["files"]:
            rep.unsure(get, "filelist_get", "what is returned is not a name of the list: %s" % show(rv)[:120])
            continue
        i = over(at[3] if isinstance(at[3], Lin) else K(at[3]), 8)
        rep.judge(get, "filelist_get a name", None if i is None else i == st["ptr"] or fx.eq0(sub(i, st["ptr"])),
                  "name %s is returned at position %s" % (show(i)[:60] if i is not None else "?", show(st["ptr"])[:60]))
        rep.judge(get, "filelist_get a name", fx.eq0(addc(sub(pos, st["ptr"]), -1)), "the position becomes %s" % show(pos)[:60])
        rep.judge(get, "filelist_get a name", fx.ge0(addc(sub(st["count"], st["ptr"]), -1)),
                  "a name is returned although the position may be behind the last one")
    n += inside_list(rep, bound, r, st)
    # ---- put
    f, r, nm, st = list_run("filelist_put", ("wrapped_strdup",))
    rep.note(functions=1, paths=len(r.results), event_nodes=len(r.nodes))
    text = A(arg(f, 1))
    for s, rv in r.results:
        fx, evs = s.facts, s.events()
        val = {x: nm.now(s, st["base"], x) if nm.now(s, st["base"], x) is not None else st[x] for x in ("files", "max", "count", "ptr")}
        rep.judge(put, "filelist_put", fx.eq0(addc(sub(val["count"], st["count"]), -1)) if linear(val["count"]) else None,
                  "the count becomes %s" % show(val["count"])[:60])
        rep.judge(put, "filelist_put", True if val["ptr"] in (K(0), st["ptr"]) or fx.eq0(val["ptr"]) else False if linear(val["ptr"])
                  else None, "the position becomes %s" % show(val["ptr"])[:60])
        b, o = split_ptr(r.eng, val["files"])
        size = extent(r, st, None, b)
        if b is None or o != K(0) or size is None:
            rep.unsure(room, "filelist_put", "the array is %s" % show(val["files"])[:60])
            continue
        want = scale(val["max"], 8)
        rep.judge(room, "filelist_put", True if fx.ge0(sub(size, want)) else False if linear(size) else None,
                  "%s bytes for %s names" % (show(size)[:80], show(val["max"])[:60]))
        rep.judge(room, "filelist_put", True if fx.ge0(sub(val["max"], val["count"])) else False if linear(val["max"]) else None,
                  "%s names and a maximum of %s" % (show(val["count"])[:60], show(val["max"])[:60]))
        if A(b) != st["files"]:
            rep.judge(grow, "filelist_put", copies(r, s, evs, st["files"], b, st["count"], size),
                      "not every name is carried over to the new array")
        # the entry
        slot = None
        for (bb, oo), (v, c) in s.mem.items():
            if bb == b and (oo == scale(st["count"], 8) or fx.eq0(sub(oo, scale(st["count"], 8)))):
                slot = v
        for e in evs:
            if e.kind == "store" and e.args[0].t and split_ptr(r.eng, e.args[0])[0] == b:
                off = split_ptr(r.eng, e.args[0])[1]
                if e.facts.ge0(addc(sub(scale(st["count"], 8), off), -8)) and not any(
                        x[0] == "leaf" and x[1] == "N" for x in atoms_of(off)) and e.args[1] != K(0):
                    rep.bad(put, site(e), "an entry before the last one is overwritten, at offset %s" % show(off)[:80])
        if slot is None:
            rep.judge(put, "filelist_put", False if not any(e.kind == "store" and e.args[0].t and split_ptr(
                r.eng, e.args[0])[0] == b and over(split_ptr(r.eng, e.args[0])[1], 8) is None for e in evs) else None,
                "nothing is stored behind the last name")
            continue
        dup = [e for e in evs if e.kind == "call" and e.name == "wrapped_strdup" and e.ret == slot]
        if dup:
            ok = dup[0].args[0] == text
        else:
            sb, so = s.split(slot)
            c = s.content(sb, so) if sb is not None else None
            ok = False if slot == text or not slot.t else True if c is not None and len(c) == 1 and c[0][0] == "src" and \
                A(c[0][1]) == text and c[0][2] == K(0) else None
        rep.judge(put, "filelist_put", ok, "what is stored is not a copy of the name: %s" % show(slot)[:80])
    n += inside_list(rep, bound, r, st)
    # ---- reset, count, init
    f, r, nm, st = list_run("filelist_reset")
    rep.note(functions=1, paths=len(r.results))
    for s, rv in r.results:
        v = nm.now(s, st["base"], "ptr")
        rep.judge(res, "filelist_reset", v == K(0), "the position becomes %s" % (show(v) if v is not None else "?"))
        odd = same(s, nm, st, ("files", "max", "count"))
        rep.judge(res, "filelist_reset", odd is None, "%s becomes %s" % (odd[0], show(odd[1])[:60]) if odd else "")
    f, r, nm, st = list_run("filelist_count")
    rep.note(functions=1, paths=len(r.results))
    for s, rv in r.results:
        rep.judge("counted", "filelist_count", True if rv == st["count"] or s.facts.eq0(sub(rv, st["count"])) else False if linear(rv)
                  else None, "%s is returned" % show(rv)[:80])
    f, r, nm, st = list_run("filelist_init")
    rep.note(functions=1, paths=len(r.results))
    for s, rv in r.results:
        at = single(rv)
        if rv == K(0):
            continue
        if at is None or at[0] != "obj":
            rep.unsure(new, "filelist_init", "what is returned is not a new object: %s" % show(rv)[:80])
            continue
        fill = s.fillof(at)
        val = {}
        for x in ("files", "max", "count", "ptr"):
            v = nm.now(s, at, x)
            val[x] = v if v is not None else K(0) if fill == "zero" or zeroed(s, r, at) else None
        if any(v is None for v in val.values()):
            rep.bad(new, "filelist_init", "%s is not set" % ", ".join(x for x, v in val.items() if v is None))
            continue
        rep.judge(new, "filelist_init", val["count"] == K(0) and val["ptr"] == K(0), "the count is %s, the position %s" % (
            show(val["count"]), show(val["ptr"])))
        b, o = split_ptr(r.eng, val["files"])
        size = extent(r, None, None, b)
        rep.judge(new, "filelist_init", None if size is None else s.facts.ge0(sub(size, scale(val["max"], 8))) and
                  s.facts.ge0(addc(val["max"], -1)), "%s bytes for %s names" % (show(size) if size is not None else "?", show(val["max"])))
    f, r, nm, st = list_run("filelist_free")
    n += inside_list(rep, bound, r, st)
    rep.note(array_accesses=n)


def linear(v):
    return not any(at[0] == "op" for at in atoms_of(v))


def known_here(fx, f):
    """Atoms the path itself compared."""
    out = set()
    for c, _ in fx.pred:
        atoms_of(c, out)
    return out


def bounded(fx, st):
    """The path leaves the position free between two ends: it was compared, and not with the count."""
    for c, _ in fx.pred:
        a = atoms_of(c)
        if single(st["ptr"]) in a and single(st["count"]) in a:
            return False
    return True


def zeroed(s, r, at):
    for e in s.events():
        if e.kind == "write" and e.name == "memset" and e.args[0] == A(at):
            return True
    return False
