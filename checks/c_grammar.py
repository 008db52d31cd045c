"""C28, C29, C32: what configuration text means (src/config_file_yacc.y, config_file_lex.l, config_file_spoof.c)."""
import os
import re

import grammar
import program
import runs
from c_config import NEARLY, arg, compared, fx_fields, is_text, null
from c_files import iterations, loops
from interp import Engine
from runs import Run, memo
from terms import *  # noqa: F401,F403
from walks import field, is_field, walks


# ---------------------------------------------------------------- the shipped file, as documented

class Syntax(Exception):
    pass


def parse_rc(text):
    """([(name, [filter])], [ignored]) of a configuration text, read by its documentation (detoxrc.5); a filter is
    (kind, builtin, filename, remove_trailing, max_length)."""
    toks = []
    for m in re.finditer(r'#.*|\s+|("([^"\n]*)")|([A-Za-z][A-Za-z0-9_]*)|([0-9]+)|([{};])|(.)', text):
        if m.group(1):
            toks.append(("str", m.group(2)))
        elif m.group(3):
            toks.append(("word", m.group(3)))
        elif m.group(4):
            toks.append(("num", int(m.group(4))))
        elif m.group(5):
            toks.append((m.group(5), m.group(5)))
        elif m.group(6):
            raise Syntax("stray %r" % m.group(6))
    toks.append(("end", ""))
    pos = [0]

    def peek():
        return toks[pos[0]]

    def take(kind, val=None):
        t = toks[pos[0]]
        if t[0] != kind or val is not None and str(t[1]).lower() != val:
            raise Syntax("%s expected at %r" % (val or kind, t[1]))
        pos[0] += 1
        return t[1]

    def string():
        t = peek()
        if t[0] not in ("str", "word"):
            raise Syntax("a name expected at %r" % (t[1],))
        pos[0] += 1
        return t[1]
    seqs, ign = [], []
    while peek()[0] != "end":
        w = take("word").lower()
        if w == "sequence":
            name = string()
            take("{")
            fs = []
            while peek()[0] != "}":
                k = take("word").lower()
                kind = k.upper()
                if kind not in program.KINDS:
                    raise Syntax("unknown filter %r" % k)
                b, f, rt, ml = None, None, 0, 0
                if peek()[0] == "{":
                    take("{")
                    while peek()[0] != "}":
                        o = take("word").lower()
                        if o == "builtin":
                            b = string()
                        elif o == "filename":
                            f = string()
                        elif o == "remove_trailing":
                            rt = 1
                        elif o == "length":
                            ml = take("num")
                        else:
                            raise Syntax("unknown option %r" % o)
                        take(";")
                    take("}")
                take(";")
                fs.append((kind, b, f, rt, ml))
            take("}")
            take(";")
            for k, (n, _) in enumerate(seqs):
                if n == name:
                    seqs[k] = (name, fs)
                    break
            else:
                seqs.append((name, fs))
        elif w == "ignore":
            take("{")
            while peek()[0] != "}":
                take("word", "filename")
                ign.append(string())
                take(";")
            take("}")
            take(";")
        else:
            raise Syntax("%r" % w)
    return seqs, ign


# ---------------------------------------------------------------- structures built on a path

class Unknown(Exception):
    pass


class Heap:
    """Reads structures out of an abstract state."""

    def __init__(self, p, s):
        self.p, self.s = p, s

    def value(self, base, struct, name):
        off = K(self.p.offset(struct, name))
        v = self.s.mem.get((base, off))
        if v is not None:
            return v[0]
        if self.s.fillof(base) == "zero":
            same = [k for k in self.s.mem if k[0] == base]
            if all(sub(k[1], off).t == () for k in same):
                return K(0)
        raise Unknown("%s.%s" % (struct, name))

    def number(self, base, struct, name):
        v = self.value(base, struct, name)
        if v.t:
            raise Unknown("%s.%s is %s" % (struct, name, show(v)))
        return v.c

    def pointer(self, base, struct, name):
        """The base a pointer field points at the start of, or None if it is null."""
        v = self.value(base, struct, name)
        if not v.t:
            return None
        b, o = self.s.split(v)
        if b is None or o != K(0) or b[0] != "obj":
            raise Unknown("%s.%s is %s" % (struct, name, show(v)))
        return b

    def text(self, base, struct, name):
        v = self.value(base, struct, name)
        if not v.t:
            return None
        b, o = self.s.split(v)
        return literal(self.s.content(b, o) if b is not None else None)


def literal(c):
    if c is None:
        raise Unknown("a text")
    if c == ():
        return ""
    if len(c) != 1 or c[0][0] != "lit":
        raise Unknown("a text: %s" % (c,))
    return c[0][1].decode("latin1")


def chain(h, first, struct):
    out = []
    while first is not None:
        if first in out:
            raise Unknown("a list that closes on itself")
        out.append(first)
        first = h.pointer(first, struct, "next")
    return out


def table_of(kind, b, f):
    return (b, f) if kind in ("SAFE", "ISO8859_1", "UTF_8") else ()


def norm(flt):
    kind, b, f, rt, ml = flt
    return (kind,) + table_of(kind, b, f) + ((bool(rt),) if kind == "WIPEUP" else (ml,) if kind == "MAX_LENGTH" else ())


def show_filter(f):
    kind = f[0].lower()
    o = [x for x in f[1:] if x not in (None, False, 0)]
    return kind + (" {%s}" % " ".join("remove_trailing" if x is True else str(x) for x in o) if o else "")


@memo
def spoof_run():
    p = runs.prog()
    f = p.need("spoof_config_file")
    e = Engine(p, opaque=["filelist_put"] if p.fn("filelist_put") is not None else [], budget=1000000)
    return Run(e, e.run_root(f), f.name)


def c32(rep):
    p = runs.prog()
    seqs = rep.rule("sequences", "the built-in configuration has the sequences of the shipped file, in the same order")
    filt = rep.rule("filters", "each of its sequences has the same filters with the same settings in the same order")
    ign = rep.rule("ignored", "its list of ignored names is that of the shipped file")
    path = os.path.join(program.REPO, "etc", "detoxrc")
    want, names = parse_rc(open(path, encoding="latin1").read())
    r = spoof_run()
    rep.note(function=r.root, paths=len(r.results), event_nodes=len(r.nodes), shipped="etc/detoxrc",
             shipped_sequences=len(want), shipped_filters=sum(len(f) for _, f in want))
    if not want:
        rep.unsure(seqs, "etc/detoxrc", "it defines no sequence")
    # a copy of the shipped file lies beside the documentation it is installed from
    lists = "files_to_ignore"
    for s, rv in r.results:
        try:
            h = Heap(p, s)
            b, o = s.split(rv)
            if b is None or o != K(0):
                if rv == K(0):
                    rep.bad(seqs, r.root, "there is no built-in configuration")
                    continue
                raise Unknown("what is returned: %s" % show(rv))
            by = {n: k for k, n in p.kinds.items()}
            got = []
            for q in chain(h, h.pointer(b, "config_file_t", "sequences"), "sequence_t_ref"):
                fs = []
                for x in chain(h, h.pointer(q, "sequence_t_ref", "filters"), "filter_t_ref"):
                    n = h.number(x, "filter_t_ref", "cleaner")
                    fs.append((by.get(n, "kind %d" % n), h.text(x, "filter_t_ref", "builtin"),
                               h.text(x, "filter_t_ref", "filename"), h.number(x, "filter_t_ref", "remove_trailing"),
                               h.number(x, "filter_t_ref", "max_length")))
                got.append((h.text(q, "sequence_t_ref", "name"), fs))
            for k in range(max(len(got), len(want))):
                g = got[k][0] if k < len(got) else None
                w = want[k][0] if k < len(want) else None
                rep.judge(seqs, "sequence %d" % (k + 1), g == w, "it is %s, in etc/detoxrc it is %s" % (g, w))
                if g != w:
                    continue
                a, c = [norm(x) for x in got[k][1]], [norm(x) for x in want[k][1]]
                for j in range(max(len(a), len(c))):
                    x = a[j] if j < len(a) else None
                    y = c[j] if j < len(c) else None
                    rep.judge(filt, "sequence %s filter %d" % (g, j + 1), x == y, "it is %s, in etc/detoxrc it is %s" % (
                        show_filter(x) if x else "missing", show_filter(y) if y else "missing"))
            v = h.value(b, "config_file_t", lists)
            puts = []
            for e in s.events():
                if e.kind == "call" and e.name == "filelist_put":
                    if e.args[0] != v:
                        rep.bad(ign, e.loc(), "a name is put into a list that is not the list of ignored names")
                        continue
                    puts.append(literal(e.strs.get(1)))
            if not v.t and names:
                rep.bad(ign, r.root, "there is no list of ignored names")
            rep.judge(ign, r.root, sorted(puts) == sorted(names), "%s; in etc/detoxrc %s" % (puts, names))
        except Unknown as x:
            if any(True for _ in rep.badl):
                continue
            rep.unsure(seqs, r.root, "what is built could not be followed: %s" % x)
            for q in (seqs, filt, ign):
                rep.need.discard(q)
    if not r.results:
        rep.bad(seqs, r.root, "no built-in configuration is ever returned")


# ---------------------------------------------------------------- C28, C29: the generated parser

UNIT = "config_file_yacc.c"
HEAD, TAIL = "cf_filter_ret", "cf_filter_current"
SHEAD, STAIL = "cf_sequence_ret", "cf_sequence_current"
NAME, FILE, IGN = "current_name", "current_filename", "files_to_ignore"
OPAQUE = ("filelist_put", "yyparse", "filelist_count", "filelist_init")


@memo
def parser():
    """The program with the actions of the grammar and the lexer as functions of their own."""
    def patch(src):
        out = {}
        try:
            g = grammar.Grammar(src)
            st = grammar.statements(g)
            with open(os.path.join(src, UNIT), "a") as f:
                for k, s in enumerate(st[0]):
                    s.fn = "sa_stmt_%d" % k
                    f.write("\n" + s.define(s.fn))
            out["grammar"], out["statements"] = g, st
        except grammar.Unclear as e:
            out["unclear"] = str(e)
        try:
            l = grammar.Lexer(src, fold=bool(re.search(r"^AM_LFLAGS\s*=.*-i", open(os.path.join(
                program.REPO, "src", "Makefile.am")).read(), re.M)))
            with open(os.path.join(src, "config_file_lex.c"), "a") as f:
                for k, a in enumerate(l.actions):
                    f.write("\nint sa_lex_%d(char *yytext)\n{\nsize_t sa_n = strlen(yytext);\nint yyleng = (int) sa_n;\n"
                            "if (sa_n < %d) return -99;\nif (sa_n == %d) {\n%s\nreturn -1;\n}\n%s\nreturn -1;\n}\n" % (
                                (k,) + (grammar.shortest(l.patterns[k], l.fold, l.defs),) * 2 + (a, a)))
            out["lexer"] = l
        except grammar.Unclear as e:
            out["unclear lexer"] = str(e)
        return out
    return program.load(patch=patch)


@memo
def run_of(name):
    p = parser()
    f = p.need(name)
    e = Engine(p, opaque=[o for o in OPAQUE if p.fn(o) is not None], budget=300000)
    e.merge_limit = 1 << 30
    given = [n for n, t in f.args] if name.startswith(("sa_stmt", "sa_lex")) else []
    rs = e.run_root(f, nonnull=given)
    return f, Run(e, [(s, rv) for s, rv in rs if not (name.startswith("sa_lex") and rv in (K(-99), K((1 << 32) - 99)))], name)


def gbase(name):
    p = parser()
    for k in ("%s:%s" % (UNIT, name), name):
        if k in p.globals:
            return k, ("obj", "@" + k)
    raise program.AnalysisBroken("anchor missing: variable %s" % name)


def ginit(name):
    """The value of a variable before the function ran."""
    k, b = gbase(name)
    return ("leaf", "mem", b, K(0), (0, 0, ("g", k)), 64)


def gnow(s, name):
    v = s.mem.get((gbase(name)[1], K(0)))
    return v[0] if v is not None else A(ginit(name))


def fresh(s, v):
    """The object allocated on the path that v points at the start of, else None."""
    b, o = s.split(v) if v.t else (None, None)
    return b if b is not None and o == K(0) and b[0] == "obj" and not b[1].startswith("@") else None


def appended(p, s, head, tail, struct):
    """Whether the path appends one new element to the list head..tail: (verdict, element, why)."""
    fx = s.facts
    h0, t0 = ginit(head), ginit(tail)
    h1, t1 = gnow(s, head), gnow(s, tail)
    new = fresh(s, t1)
    if new is None:
        return False, None, "%s is not made to point at the new element" % tail
    a = A(new)
    e = null(fx, h0)
    if e is None and null(fx, t0) is not None:
        e = null(fx, t0)
    try:
        nx = Heap(p, s).value(new, struct, "next")
    except Unknown:
        nx = None
    if nx != K(0):
        return False if nx is not None else None, new, "the new element has a successor"
    link = s.mem.get((t0, K(p.offset(struct, "next"))))
    if e is True:
        return h1 == t1, new, "the first element does not become the head of the list"
    if e is False:
        if h1 != A(h0):
            return False, new, "the head of a list that has elements is replaced"
        if link is None or link[0] != t1:
            return False, new, "the new element is not linked behind the last"
        return True, new, ""
    if h1 == t1:
        return False, new, "the list is replaced by the new element without a look at whether it is empty"
    return None, new, "whether the list is empty is not known"


def others(rep, rule, where, s, names):
    for n in names:
        if gnow(s, n) != A(ginit(n)):
            rep.bad(rule, where, "%s is changed" % n)


def same_text(s, v, leaf):
    """Whether v points at the text of leaf (the string itself or a copy of it)."""
    if v == A(leaf):
        return True
    if not v.t:
        return False
    b, o = s.split(v)
    c = s.content(b, o) if b is not None else None
    return is_text(c, leaf) if c is not None else None


def param(st, tok):
    """The leaf of the text (or number) of a token of a statement."""
    for k, (t, v) in enumerate(st.toks):
        if t in tok and v:
            return ("leaf", "arg", "name" if v == "v_name" else "p_" + v, 64 if t in grammar.STR else 32)
    return None


def c28(rep):
    lang = rep.rule("language", "the parser accepts every text the documentation describes and no other (every reachable "
                    "state of the LALR automaton against the documented statements, token by token)")
    one = rep.rule("one filter", "a filter statement appends exactly one filter to the sequence being read, behind those before")
    sett = rep.rule("settings", "that filter is of the kind named and has exactly the builtin, file name, length and "
                    "remove_trailing given, and none otherwise")
    ign = rep.rule("ignore", "an ignore entry adds exactly its name to the ignored names")
    seq = rep.rule("sequence", "at the end of a sequence its filters become those of the sequence of that name")
    err = rep.rule("error", "a syntax error ends the program with a message and a failure status")
    tok = rep.rule("tokens", "the lexer splits text into the documented words, names, numbers and signs")
    txt = rep.rule("texts", "a name stands for exactly its characters, without quotes, and a number for its value")
    p = parser()
    x = p.extra
    if "unclear" in x:
        rep.unsure(lang, "config_file_yacc.y", x["unclear"])
        for r in (lang, one, sett, ign, seq):
            rep.need.discard(r)
    else:
        g = x["grammar"]
        sts, refused, accepted, n = x["statements"]
        rep.note(grammar_rules=len(g.rules), automaton_states=len(g.states), product_states=n, statements=len(sts))
        if g.conflicts:
            rep.unsure(lang, "config_file_yacc.y", "the grammar has conflicts")
        for t in refused:
            rep.bad(lang, "config_file_yacc.y", "refused: %s" % t)
        for t in accepted:
            rep.bad(lang, "config_file_yacc.y", "accepted, though it is not documented: %s" % t)
        if not refused and not accepted:
            rep.ok(lang, "config_file_yacc.y", "%d product states" % n)
        for st in sts:
            if st.to == "end":
                if any("cf_" in l for l in st.code.lines):
                    rep.unsure(lang, "end of file", "actions at the end of the file")
                continue
            where = "%s (%s)" % (st.text(), st.frm)
            try:
                statement(rep, p, st, where, one, sett, ign, seq)
            except Unknown as e:
                rep.unsure(one, where, str(e))
    errors(rep, p, err)
    if "unclear lexer" in x:
        rep.unsure(tok, "config_file_lex.l", x["unclear lexer"])
        rep.need -= {tok, txt}
    else:
        lexer(rep, p, x["lexer"], tok, txt)


def statement(rep, p, st, where, one, sett, ign, seq):
    f, r = run_of(st.fn)
    kind = next((t for t, _ in st.toks if t in grammar.KINDS), None)
    names = {a for a, _ in f.args}
    def pending():
        return None if not st.ends else False
    if not r.results:
        rep.bad(one, where, "the program never gets past the statement")
    for s, rv in r.results:
        fx = s.facts
        evs = s.events()
        puts = [e for e in evs if e.kind == "call" and e.name == "filelist_put"]
        if kind is not None:
            v, new, why = appended(p, s, HEAD, TAIL, "filter_t_ref")
            if v is False and new is None and not st.ends:
                v = None
            rep.judge(one, where, v, why)
            others(rep, one, where, s, (SHEAD, STAIL, NAME, FILE, IGN))
            if puts:
                rep.bad(one, where, "an ignored name is added")
            made = [e for e in evs if e.kind == "store" and e.name == ("f", "filter_t_ref", p.offset("filter_t_ref", "next"))
                    and e.args[1].t]
            if len(made) > 1:
                rep.bad(one, where, "more than one filter is linked")
            if new is None:
                continue
            h = Heap(p, s)
            n = h.value(new, "filter_t_ref", "cleaner")
            rep.judge(sett, where + " kind", n == K(p.kinds[kind]), "the kind is %s" % show(n))
            for fld, opt in (("builtin", "BUILTIN"), ("filename", "FILENAME")):
                w = param(st, grammar.STR) if any(t == opt for t, _ in st.toks) else None
                v = h.value(new, "filter_t_ref", fld)
                if w is None:
                    rep.judge(sett, where + " " + fld, v == K(0), "%s is set to %s though none is given" % (fld, show(v)))
                else:
                    rep.judge(sett, where + " " + fld, False if v == K(0) or not v.t else same_text(s, v, w) or
                              (False if "uninit" in str(v) else None), "%s is not what is given: %s" % (fld, show(v)))
            v = h.value(new, "filter_t_ref", "remove_trailing")
            on = any(t == "REMOVE_TRAILING" for t, _ in st.toks)
            if kind == "WIPEUP" or v.t:
                rep.judge(sett, where + " remove_trailing", None if v.t else (v.c != 0) == on, "remove_trailing is %s" % show(v))
            v = h.value(new, "filter_t_ref", "max_length")
            w = param(st, ("NVALUE",))
            if w is not None:
                c = trunc_of(v)
                rep.judge(sett, where + " length", False if not v.t or "uninit" in str(v) or narrowed(v) else
                          c == A(w) or None, "the length is %s" % show(v))
            elif kind == "MAX_LENGTH":
                rep.judge(sett, where + " length", v == K(0), "the length is %s though none is given" % show(v))
            tb = h.value(new, "filter_t_ref", "table")
            rep.judge(sett, where + " table", tb == K(0), "the filter starts with a table")
        elif st.frm.startswith("ign") and st.to == "ign":
            w = param(st, grammar.STR)
            if len(puts) != 1:
                rep.judge(ign, where, pending() if not puts else False, "%d names are added" % len(puts))
            for e in puts:
                ok = e.args[0] == A(ginit(IGN))
                t = same_text(s, e.args[1], w)
                rep.judge(ign, where, False if not ok or t is False else t, "%s is put into %s" % (show(e.args[1]), show(e.args[0])))
            others(rep, ign, where, s, (HEAD, TAIL, SHEAD, STAIL, NAME, FILE, IGN))
        elif any(t == "SEQUENCE" for t, _ in st.toks):
            v = gnow(s, NAME)
            w = param(st, grammar.STR)
            ok = same_text(s, v, w)
            if ok is not True and st.held:
                ok = True
            elif ok is not True and v == A(ginit(NAME)):
                ok = False
            rep.judge(seq, where, ok, "the name of the sequence becomes %s" % show(v))
            others(rep, seq, where, s, (HEAD, SHEAD, STAIL, FILE, IGN))
            if puts:
                rep.bad(seq, where, "an ignored name is added")
        elif st.frm == "body" and st.to == "top":
            closed(rep, p, st, s, where, seq)
            if puts:
                rep.bad(seq, where, "an ignored name is added")
        else:
            if puts:
                rep.bad(ign, where, "a name is added")
            others(rep, ign, where, s, (HEAD, TAIL, SHEAD, STAIL, NAME, FILE, IGN))


def conv(v):
    """(conversion, operand) of a converted value, else None."""
    at = single(v) if v.t else None
    if at is not None and at[0] == "op" and at[1] in ("sext", "zext", "trunc"):
        return at[1], next((x for x in at[4:] if isinstance(x, Lin)), None), at[2]
    return None


def trunc_of(v):
    """The value below a sign or zero extension."""
    c = conv(v)
    while c is not None and c[1] is not None:
        v = c[1]
        c = conv(v)
    return v


def narrowed(v):
    """Whether only the low bits of a number are kept."""
    c = conv(v)
    while c is not None and c[1] is not None:
        if c[0] == "trunc" and c[2] < 32:
            return True
        c = conv(c[1])
    return False


def filters_set(p, s):
    """The stores of a list of filters into a sequence."""
    c = ("f", "sequence_t_ref", p.offset("sequence_t_ref", "filters"))
    return [e for e in s.events() if e.kind == "store" and e.name == c]


def closed(rep, p, st, s, where, seq):
    if null(s.facts, ginit(NAME)) is True and not any(x == "v_name" for _, x in st.stack):
        return                                     # a sequence always has a name by then
    sets = [e for e in filters_set(p, s) if e.args[1] != K(0)]
    good = [e for e in sets if e.args[1] == A(ginit(HEAD))]
    rep.judge(seq, where, len(good) == 1 and len(sets) == 1 if st.ends else None,
              "the filters read become those of %d sequences" % len(good))
    rep.judge(seq, where + " reset", gnow(s, HEAD) == K(0), "the next sequence starts with filters of this one")
    if by_tail():
        rep.judge(seq, where + " reset", gnow(s, TAIL) == K(0), "the next sequence starts with filters of this one")
    others(rep, seq, where, s, (FILE, IGN))


@memo
def by_tail():
    """Whether appending a filter asks the tail (not the head) whether the list is empty."""
    p = parser()
    for st in p.extra["statements"][0]:
        if any(t in grammar.KINDS for t, _ in st.toks):
            for s, rv in run_of(st.fn)[1].results:
                if null(s.facts, ginit(HEAD)) is None:
                    return True
    return False


def errors(rep, p, err):
    f, r = run_of("yyerror")
    rep.judge(err, "yyerror", not r.results, "yyerror returns: parsing goes on after a syntax error")
    n = 0
    for s, code in r.eng.exits:
        n += 1
        rep.judge(err, "yyerror exits", s.facts.decide("ne", code, K(0), 32) is True, "the status is %s" % show(code))
        rep.judge(err, "yyerror tells", any(e.kind == "out" and e.x.get("stream") == "stderr" for e in s.events()) or
                  any(e.kind == "out" and "stderr" in str(e.x.get("stream")) for e in s.events()), "there is no message")


WORDS = ("BUILTIN", "FILENAME", "IGNORE", "ISO8859_1", "LENGTH", "LOWER", "MAX_LENGTH", "REMOVE_TRAILING", "SAFE", "SEQUENCE",
         "UNCGI", "UTF_8", "WIPEUP")
SPEC = [("skip", "[\\t ]+"), ("skip", "#.*"), ("skip", "\\n")] + [(w, w.lower()) for w in WORDS] + [
    ("OPEN", "[{]"), ("CLOSE", "[}]"), ("QSTRING", '\\"[^\\"\\n]*[\\"\\n]'), ("ID", "[a-zA-Z][a-zA-Z0-9_]*"),
    ("NVALUE", "[0-9]+"), ("EOL", "[;]")]


def lexer(rep, p, l, tok, txt):
    g = p.extra.get("grammar")
    num = {v: k for k, v in (g.tokens if g else {}).items()}
    labels = []
    for k, pat in enumerate(l.patterns):
        f, r = run_of("sa_lex_%d" % k)
        got = set()
        for s, rv in r.results:
            if rv.t:
                got.add(None)
            else:
                c = rv.c - (1 << 32) if rv.c >= 1 << 31 else rv.c
                got.add("skip" if c == -1 else num.get(c, "token %d" % c))
        if len(got) != 1 or None in got:
            rep.unsure(tok, pat, "the rule may yield %s" % sorted(map(str, got)))
            rep.need.discard(tok)
            return
        labels.append(got.pop())
    try:
        d = grammar.differ(grammar.automaton(SPEC, l.fold), grammar.automaton(list(zip(labels, l.patterns)), l.fold, l.defs))
    except grammar.Unclear as e:
        rep.unsure(tok, "config_file_lex.l", str(e))
        rep.need.discard(tok)
        return
    rep.note(lexer_rules=len(l.patterns))
    rep.judge(tok, "config_file_lex.l", d is None, d and "%r is read as %s instead of %s" % (
        d[0].decode("latin1"), d[2] or "no token of its own", d[1] or "several tokens"))
    y = gbase("yylval")[1]
    text = ("leaf", "arg", "yytext", 64)
    for k, lab in enumerate(labels):
        f, r = run_of("sa_lex_%d" % k)
        where = "%s %s" % (lab, l.patterns[k])
        for s, rv in r.results:
            v = s.mem.get((y, K(0)))
            v = v[0] if v is not None else None
            if lab == "NVALUE":
                calls = [e for e in s.events() if e.kind == "call" and e.name in ("atoi", "atol", "strtol", "strtoul", "strtoll",
                                                                                   "strtoull", "atoll")
                         and is_text(e.strs.get(0), text)]
                ok = None
                if v is None:
                    ok = False
                for e in calls:
                    if v is not None and v.t and narrowed(v):
                        ok = False
                    elif trunc_of(v) == e.ret or v == e.ret:
                        ok = e.name.startswith("ato") or e.args[2] == K(10) or (e.args[2] == K(0) and False)
                if calls and ok is None and v is not None and not v.t:
                    ok = False
                rep.judge(txt, where, ok, "the number is %s" % (show(v) if v is not None else "not set"))
            elif lab in ("ID", "QSTRING"):
                if v is None or not v.t:
                    rep.bad(txt, where, "the text is not set")
                    continue
                b, o = s.split(v)
                c = s.content(b, o) if b is not None else None
                at = single(v)
                if at is not None and b == text:
                    rep.bad(txt, where, "the text is the buffer of the lexer, which the next token overwrites")
                    continue
                if lab == "ID":
                    rep.judge(txt, where, True if c is not None and is_text(c, text) else False if c is not None else None,
                              "the text is %s" % (c,))
                    continue
                n = s.strlen_atom(text, 0)
                last = s.read_byte(text, sub(n, K(1)))
                q = s.facts.decide("eq", last, K(34), 8)
                if q is False:
                    continue                                  # unterminated: only warned about
                good = inner(s, c, text, n)
                if good is None and q is None and any(e.kind == "out" for e in s.events()):
                    continue
                rep.judge(txt, where, good, "the text is %s" % (c,))


def inner(s, c, text, n):
    """Whether the content is what stands between the quotes."""
    if c is None:
        return None
    if c == ():
        return True if s.facts.eq0(sub(n, K(2))) else False if s.facts.ne0(sub(n, K(2))) else None
    if len(c) != 1 or c[0][0] not in ("sub", "src") or c[0][1] != text:
        return None
    if c[0][2] != K(1):
        return False
    if c[0][0] == "src":
        return False
    d = sub(c[0][3], sub(n, K(2)))
    return True if s.facts.eq0(d) else False if not d.t else None


# ---------------------------------------------------------------- C29

def c29(rep):
    place = rep.rule("replaced in place", "a sequence defined again gets its new filters where it stands, nothing else of the "
                     "list is touched")
    new = rep.rule("appended", "a sequence of a new name is put behind all others, only after every name was compared")
    start = rep.rule("carried over", "reading a file starts from the sequences and ignored names of what was read before")
    out = rep.rule("returned", "what is returned is the configuration read before with the lists as they are after reading, "
                   "or a new one if there was none")
    fail = rep.rule("no file", "a file that cannot be opened leaves what was read before as it was")
    order = rep.rule("handed on", "each file is read on top of the result of the one before")
    p = parser()
    x = p.extra
    if "unclear" in x:
        rep.unsure(new, "config_file_yacc.y", x["unclear"])
        rep.need -= {place, new}
    else:
        sts = [st for st in x["statements"][0] if st.frm == "body" and st.to == "top"]
        rep.note(statements=len(sts))
        for st in sts:
            f, r = run_of(st.fn)
            where = "end of a sequence"
            names = [ginit(NAME)]
            if any(v == "v_name" for _, v in st.stack):
                names = [("leaf", "arg", "name", 64)]
            ended(rep, p, st, r, where, names[0], place, new)
        for st in x["statements"][0]:
            if st not in sts and st.to != "end":
                for s, rv in run_of(st.fn)[1].results:
                    where = "%s (%s)" % (st.text(), st.frm)
                    if gnow(s, SHEAD) != A(ginit(SHEAD)) or gnow(s, STAIL) != A(ginit(STAIL)):
                        rep.bad(new, where, "the list of sequences is changed before a sequence ends")
                    if filters_set(p, s):
                        rep.bad(place, where, "the filters of a sequence are changed before a sequence ends")
    read(rep, p, start, out, fail)
    handed(rep, order)


def ended(rep, p, st, r, where, name, place, new):
    wanted = lambda parts: is_text(parts, name)
    h0 = ginit(SHEAD)
    full = {}
    for lp in loops(r):
        for w in walks(p, lp):
            if w.init != A(h0):
                if w.init.t and is_field(p, w.init, h0, "next") is True:
                    rep.bad(new, where, "the search starts at the second sequence")
                continue
            ok = w.steps
            if ok is not True:
                rep.judge(new, where, ok, "the search does not go from one sequence to the next")
            for h, s, evs in iterations(lp):
                if null(s.facts, name) is True:
                    continue
                got = compared(p, evs, s.facts, w.cursor(h), wanted)
                v = True if False in got else None if got or any(
                    e.kind == "call" and e.name in ("memcmp", "bcmp", "strncmp") for e in evs) and not any(
                    e.name in NEARLY for e in evs if e.kind == "call") else False
                if v is not True:
                    ok = v
                rep.judge(new, where + " search", v, "a sequence is passed over without its name differing from the new one")
            full[id(lp)] = (w, ok)
    for s, rv in r.results:
        fx = s.facts
        if null(fx, name) is True:
            continue
        evs = s.events()
        sets = [e for e in filters_set(p, s) if e.args[1] == A(ginit(HEAD))]
        done = None
        for e in evs:
            if e.kind == "loop-exit" and id(e.x["loop"]) in full:
                w, ok = full[id(e.x["loop"])]
                if any(null(fx, h.pv[w.var]) is True for h in e.x["loop"].heads):
                    done = ok
        if st.ends and len(sets) != 1:
            rep.bad(place, where, "the filters read become those of %d sequences" % len(sets))
        for e in sets:
            b, o = s.split(e.args[0])
            ft = p.offset("sequence_t_ref", "filters")
            if b is None or o != K(ft):
                rep.unsure(place, where, "the filters are stored at %s" % show(e.args[0]))
                continue
            src = s.mem.get((b, K(p.offset("sequence_t_ref", "source_filename"))))
            sv = same_text(s, src[0], ginit(FILE)) if src is not None else False
            nx = ("f", "sequence_t_ref", p.offset("sequence_t_ref", "next"))
            links = [z for z in evs if z.kind == "store" and z.name == nx]
            nm = ("f", "sequence_t_ref", p.offset("sequence_t_ref", "name"))
            if b[0] == "obj" and not b[1].startswith("@"):
                v, el, why = appended(p, s, SHEAD, STAIL, "sequence_t_ref")
                if el is not None and el != b:
                    v, why = False, "another element is appended"
                rep.judge(new, where + " new", v, why)
                if any(s.split(z.args[0])[0] not in (b, ginit(STAIL)) for z in links):
                    rep.bad(new, where + " new", "the list is relinked elsewhere")
                try:
                    t = same_text(s, Heap(p, s).value(b, "sequence_t_ref", "name"), name)
                except Unknown:
                    t = None
                rep.judge(new, where + " name", t, "the new sequence does not get the name read")
                e0 = null(fx, h0)
                if e0 is None:
                    e0 = null(fx, ginit(STAIL))
                rep.judge(new, where + " searched", True if done is True or e0 is True else
                          None if done is None and (full or any(z.kind == "loop" for z in evs)) else False,
                          "a sequence is appended before every name was compared with it")
            else:
                got = compared(p, evs, fx, b, wanted)
                near = any(z.kind == "call" and z.name in NEARLY for z in evs)
                rep.judge(place, where + " found", True if True in got else False if False in got or near or not any(
                    z.kind == "call" for z in evs) else None, "the filters of a sequence are replaced whose name is not "
                    "known to be the one read")
                rep.judge(place, where + " list", gnow(s, SHEAD) == A(h0) and gnow(s, STAIL) == A(ginit(STAIL)) and not links,
                          "the list of sequences is changed")
                if any(z.kind == "store" and z.name == nm and s.split(z.args[0])[0] == b for z in evs):
                    t = s.mem.get((b, K(p.offset("sequence_t_ref", "name"))))
                    rep.judge(place, where + " name", same_text(s, t[0], name) if t else None, "its name is changed")
            rep.judge(place if b[0] != "obj" else new, where + " file", sv, "the file it comes from is not noted")


def read(rep, p, start, out, fail):
    f, r = run_of("parse_config_file")
    rep.note(event_nodes=len(r.nodes), paths=len(r.results))
    prev = arg(f, 1)
    seqs, lst = p.offset("config_file_t", "sequences"), p.offset("config_file_t", "files_to_ignore")
    for s, rv in r.results:
        fx = s.facts
        evs = s.events()
        ps = [k for k, e in enumerate(evs) if e.kind == "call" and e.name == "yyparse"]
        op = [e for e in evs if e.kind == "open"]
        stores = [e for e in evs if e.kind == "store" and e.name in (("f", "config_file_t", seqs), ("f", "config_file_t", lst))]
        if not ps:
            if any(e.kind == "open" and is_text(e.strs.get(0), arg(f, 0)) for e in op) and any(
                    e.kind == "alloc" for e in evs) and False:
                pass
            rep.judge(fail, "parse_config_file", rv == A(prev) or (rv == K(0) and null(fx, prev) is True),
                      "%s is returned" % show(rv))
            rep.judge(fail, "parse_config_file stores", not stores, "the configuration is changed although no file was read")
            continue
        # the state in which reading starts
        k = ps[0]
        mem = evs[k].x.get("mem") or {}
        for e in evs[:k]:
            if e.kind == "loop" and any(y.kind == "call" and y.name == "yyparse" for h, t, ys in iterations(e.x["loop"]) for y in ys):
                mem = e.x["loop"].pre.mem
        for e in evs[:k + 1]:
            if e.kind == "loop" and any(z is evs[k] for h, t, ys in iterations(e.x["loop"]) for z in ys):
                mem = e.x["loop"].pre.mem
        at = lambda n: (mem.get((gbase(n)[1], K(0))) or (A(ginit(n)), None))[0]
        none = null(fx, prev)
        src = at(FILE)
        rep.judge(start, "parse_config_file file", same_text(s, src, arg(f, 0)), "sequences are noted as coming from %s" % show(src))
        h1, t1, f1, l1 = at(SHEAD), at(STAIL), at(HEAD), at(IGN)
        rep.judge(start, "parse_config_file filters", f1 == K(0), "the first sequence starts with filters left over: %s" % show(f1))
        if by_tail_safe():
            rep.judge(start, "parse_config_file filters", at(TAIL) == K(0), "the first sequence starts with filters left over")
        if none is True:
            rep.judge(start, "parse_config_file first", h1 == K(0), "the list of sequences starts with %s" % show(h1))
            rep.judge(start, "parse_config_file first", single(l1) is not None and l1.t and "filelist_init" in str(single(l1)) or
                      fresh(s, l1) is not None or None, "the list of ignored names starts as %s" % show(l1))
        elif none is False:
            first = None
            for z in fx_fields(fx, prev, p, "sequences"):
                first = z
            ok = is_field(p, h1, prev, "sequences")
            if ok is not True and first is not None and null(fx, first) is True:
                ok = h1 == K(0)
            elif ok is not True and h1 == K(0):
                ok = False
            rep.judge(start, "parse_config_file sequences", ok, "the list of sequences starts with %s" % show(h1))
            if first is not None and null(fx, first) is True:
                pass
            elif ok is True:
                rep.judge(start, "parse_config_file last", is_last(p, r, evs, fx, s, t1, h1), "new sequences are put behind %s, "
                          "which may not be the last" % show(t1))
            own = is_field(p, l1, prev, "files_to_ignore")
            few = any(e.kind == "call" and e.name == "filelist_count" and fx.decide("sle", e.ret, K(0), 32) is True and
                      is_field(p, e.args[0], prev, "files_to_ignore") is True for e in evs)
            nol = any(null(fx, z) is True for z in fx_fields(fx, prev, p, "files_to_ignore"))
            rep.judge(start, "parse_config_file ignored", True if own is True or few or nol else False,
                      "ignored names read before are lost: the list starts as %s" % show(l1))
        else:
            rep.unsure(start, "parse_config_file", "whether something was read before is not looked at")
        # what is returned
        b, o = s.split(rv) if rv.t else (None, None)
        if none is False:
            rep.judge(out, "parse_config_file", rv == A(prev) or (None if b is not None and b[0] == "obj" else False),
                      "%s is returned" % show(rv))
        else:
            rep.judge(out, "parse_config_file", b is not None and b[0] == "obj" and o == K(0), "%s is returned" % show(rv))
        if b is None:
            continue
        for off, g, what in ((seqs, SHEAD, "sequences"), (lst, IGN, "ignored names")):
            c = s.mem.get((b, K(off)))
            late = [e for e in evs[ps[-1]:] if e.kind == "store" and e.name == ("g", gbase(g)[0])]
            rep.judge(out, "parse_config_file %s" % what, False if c is None else c[0] == gnow(s, g) and not late,
                      "the %s are not those after reading" % what)


def is_last(p, r, evs, fx, s, t1, h1):
    """Whether t1 is the last element of the list that starts with h1."""
    nxt = p.offset("sequence_t_ref", "next")
    at = single(t1) if t1.t else None
    if at is None:
        return False
    # known to have no successor
    end = False
    for z in fx_fields(fx, at, p, "next"):
        n = null(fx, z)
        if n is True:
            end = True
        elif n is False:
            return False
    if not end:
        z = t1
        while z != h1:
            fl = field(single(z)) if z.t else None
            if not fl or p.field(fl[1], fl[2]) != "next":
                return None
            z = A(fl[0])
        return False
    # reached from h1 by single steps
    if t1 == h1:
        return True
    for e in evs:
        if e.kind != "loop":
            continue
        lp = e.x["loop"]
        for w in walks(p, lp):
            if w.init == h1 and w.steps is True and any(h.pv[w.var] == t1 for h in lp.heads):
                return True
        key = (gbase(STAIL)[1], K(0))
        pre = lp.pre.mem.get(key)
        if pre is None or pre[0] != h1:
            continue
        ok = True
        for h, q in lp.backs:
            a, c = h.mem.get(key), q.mem.get(key)
            fl = field(single(c[0])) if a and c and c[0].t else None
            if not (fl and p.field(fl[1], fl[2]) == "next" and fl[0] == single(a[0])):
                ok = False
        if ok and any(h.mem.get(key) and h.mem[key][0] == t1 for h in lp.heads):
            return True
    return None


def by_tail_safe():
    try:
        return "unclear" not in parser().extra and by_tail()
    except program.AnalysisBroken:
        return False


def handed(rep, order):
    import c_config
    p = runs.prog()
    f = p.need("config_file_load")
    op = [n for n in ("parse_config_file", "spoof_config_file") if p.fn(n) is not None]
    e = Engine(p, opaque=op, budget=500000)
    e.merge_limit = 1 << 30
    r = Run(e, e.run_root(f), f.name)
    rep.note(event_nodes=len(r.nodes))
    for s, rv in r.results:
        fx = s.facts
        got = None
        for e in s.events():
            if e.kind != "call" or e.name != "parse_config_file":
                continue
            a = e.args[1]
            if got is None or null(fx, got) is True:
                ok = a == K(0) or (got is not None and a == got)
            else:
                ok = a == got
                if not ok and null(fx, got) is None:
                    ok = None if a != K(0) else False
            rep.judge(order, e.loc(), ok, "read on top of %s, the configuration so far is %s" % (
                show(a), show(got) if got is not None else "none"))
            # a failing read returns what it was given
            got = e.ret
