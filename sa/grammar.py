"""The configuration grammar and lexer as automata: the LALR(1) automaton that bison builds from the .y file, the rules of
the .l file as one automaton over bytes, and the code of the actions of both, as it is compiled."""
import os
import re
import subprocess
import xml.etree.ElementTree as ET


class Unclear(Exception):
    pass


class Grammar:
    def __init__(self, src):
        xml = os.path.join(src, "grammar.xml")
        r = subprocess.run(["bison", "-y", "-d", "--xml=grammar.xml", "-o", "grammar_y.c", "config_file_yacc.y"], cwd=src,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise Unclear("bison: " + r.stdout.decode("utf-8", "replace")[-500:])
        said = r.stdout.decode("utf-8", "replace")
        self.conflicts = re.findall(r"\d+ (?:shift/reduce|reduce/reduce) conflict", said)
        root = ET.parse(xml).getroot()
        self.rules = {}
        for x in root.iter("rule"):
            if x.find("lhs") is None:
                continue
            self.rules[int(x.get("number"))] = (x.find("lhs").text, [y.text for y in x.find("rhs").findall("symbol")])
        self.terminals = {t.get("name"): int(t.get("token-number")) for t in root.iter("terminal")}
        self.states = {}
        for x in root.iter("state"):
            if x.find("actions") is None:
                continue
            sh, go, red, acc = {}, {}, {}, False
            for t in x.iter("transition"):
                (sh if t.get("type") == "shift" else go)[t.get("symbol")] = int(t.get("state"))
            for t in x.iter("reduction"):
                if t.get("enabled") != "true":
                    continue
                if t.get("rule") == "accept":
                    acc = True
                else:
                    red[t.get("symbol")] = int(t.get("rule"))
            err = {t.get("symbol") for t in x.iter("error")}
            self.states[int(x.get("number"))] = (sh, go, red, acc, err)
        # the actions, as compiled
        text = open(os.path.join(src, "config_file_yacc.c")).read()
        m = re.search(r"switch \(yyn\)\s*\{(.*?)\n\s*default: break;", text, re.S)
        if not m:
            raise Unclear("the actions are not found in the generated parser")
        self.actions = {}
        for a in re.split(r"\n\s*case (?=\d+: /\*)", "\n" + m.group(1))[1:]:
            k = re.match(r"(\d+): /\*.*?\*/\n(.*)\n\s*break;\s*", a, re.S)
            if k is None:
                raise Unclear("the actions of the generated parser are not understood")
            body = "\n".join(l for l in k.group(2).split("\n") if not l.startswith("#line"))
            lhs = re.match(r"\d+: /\* (\S+?): ", a)
            n = int(k.group(1)) - 1
            if lhs is None or n not in self.rules or self.rules[n][0] != lhs.group(1):
                raise Unclear("the actions of the generated parser do not fit the grammar")
            self.actions[n] = body
        head = open(os.path.join(src, "config_file_yacc.h")).read()
        self.tokens = {a: int(b) for a, b in re.findall(r"^\s*(\w+) = (-?\d+)", head, re.M)}
        self.text = text

    # -- the automaton
    def settle(self, stack, out):
        """Reductions that are made without looking at the next token."""
        while True:
            sh, go, red, acc, err = self.states[stack[-1][0]]
            if sh or acc or err or set(red) != {"$default"}:
                return
            self.reduce(stack, red["$default"], out)

    def reduce(self, stack, rule, out):
        lhs, rhs = self.rules[rule]
        n = len(rhs)
        vals = [v for _, v in stack[len(stack) - n:]] if n else []
        below = [v for _, v in stack[:len(stack) - n]]
        del stack[len(stack) - n:]
        act = self.actions.get(rule)
        val = vals[0] if vals else None
        if act is not None:
            m = re.match(r"\s*\{\s*\(?yyval\.(\w+)\)?\s*=\s*\(?yyvsp\[(-?\d+)\]\.\1\)?;\s*\}\s*$", act)
            if re.match(r"\s*\{\s*(/\*.*?\*/\s*)?;?\s*\}\s*$", act, re.S):
                pass
            elif m and n and 0 <= n - 1 + int(m.group(2)) < n:
                val = vals[n - 1 + int(m.group(2))]
            else:
                val = out.run(act, vals, below)
        g = self.states[stack[-1][0]][1].get(lhs)
        if g is None:
            raise Unclear("no state to go to after %s" % lhs)
        stack.append((g, val))

    def step(self, stack, tok, val, out):
        """One token: the new stack, "accept", or None (a syntax error)."""
        stack = list(stack)
        for _ in range(1000):
            sh, go, red, acc, err = self.states[stack[-1][0]]
            if acc:
                return "accept"
            if tok in err:
                return None
            if tok in sh:
                stack.append((sh[tok], val))
                if tok == "$end":
                    if self.states[sh[tok]][3]:
                        return "accept"
                    continue
                self.settle(stack, out)
                return stack
            r = red.get(tok, red.get("$default"))
            if r is None:
                return None
            self.reduce(stack, r, out)
        raise Unclear("the parser does not take a token")


# ---------------------------------------------------------------- the lexer

class Lexer:
    """Rules of the .l file: [(pattern, action)], in order."""

    def __init__(self, src, fold=True):
        y = open(os.path.join(src, "config_file_lex.l")).read()
        parts = re.split(r"^%%\s*$", y, flags=re.M)
        if len(parts) < 2:
            raise Unclear("the lexer has no rules section")
        self.fold = fold
        if re.search(r"^%[sx]\s", parts[0], re.M) or re.search(r"^%option.*(case|yylineno|reject|array)", parts[0], re.M):
            raise Unclear("the lexer uses start conditions or options that are not modelled")
        body = re.sub(r"%\{.*?%\}", "", parts[0], flags=re.S)
        self.defs = dict(re.findall(r"^([A-Za-z_]\w*)[ \t]+(\S.*?)\s*$", body, re.M))
        self.patterns = list(self._patterns(parts[1]))
        text = open(os.path.join(src, "config_file_lex.c")).read()
        acts = {}
        part = text[text.find("YY_RULE_SETUP\n"):]
        part = text[:text.find("YY_RULE_SETUP\n")].rsplit("\ncase ", 1)[-1] + part
        for m in re.split(r"^case (?=\d+:\n)", "case " + part, flags=re.M)[1:]:
            k, _, rest = m.partition(":\n")
            pre, sep, rest = rest.partition("YY_RULE_SETUP\n")
            if not sep:
                continue
            if "yy_c_buf_p" in pre:
                raise Unclear("a rule of the lexer with trailing context")
            act = rest.split("\n\tYY_BREAK")[0]
            acts[int(k)] = "\n".join(l for l in act.split("\n") if not l.startswith("#line"))
        n = len(self.patterns)
        if not all(k in acts for k in range(1, n + 1)):
            raise Unclear("the actions of the generated lexer are not understood")
        self.actions = [acts[k] for k in range(1, n + 1)]
        self.text = text

    def _patterns(self, text):
        depth = 0
        i, n = 0, len(text)
        text = re.sub(r"%\{.*?%\}", "", text, flags=re.S)
        lines = text.split("\n")
        k = 0
        while k < len(lines):
            l = lines[k]
            k += 1
            if not l.strip() or l[0] in " \t":
                if l.strip():
                    raise Unclear("code before the rules of the lexer")
                continue
            if l[0] == "<":
                raise Unclear("a start condition")
            # the pattern ends at the first blank outside quotes and classes
            j, q, c = 0, False, False
            while j < len(l):
                ch = l[j]
                if ch == "\\":
                    j += 2
                    continue
                if q:
                    q = ch != '"'
                elif c:
                    c = ch != "]"
                elif ch == '"':
                    q = True
                elif ch == "[":
                    c = True
                    if l[j + 1:j + 2] == "]":
                        j += 1
                elif ch in " \t":
                    break
                j += 1
            pat, act = l[:j], l[j:].strip()
            yield pat
            # skip the action
            depth = _braces(act)
            while depth > 0:
                if k >= len(lines):
                    raise Unclear("an action of the lexer does not end")
                depth += _braces(lines[k])
                k += 1


def _braces(s):
    s = re.sub(r"'(\\.|[^'\\])'|\"(\\.|[^\"\\])*\"|/\*.*?\*/|//.*", "", s)
    return s.count("{") - s.count("}")


class NFA:
    def __init__(self):
        self.eps, self.on = {}, {}
        self.n = 0

    def new(self):
        self.n += 1
        return self.n - 1

    def edge(self, a, b, cs=None):
        if cs is None:
            self.eps.setdefault(a, []).append(b)
        else:
            self.on.setdefault(a, []).append((cs, b))

    def closure(self, ss):
        todo, out = list(ss), set(ss)
        while todo:
            for t in self.eps.get(todo.pop(), ()):
                if t not in out:
                    out.add(t)
                    todo.append(t)
        return frozenset(out)

    def move(self, ss, c):
        return self.closure({b for s in ss for cs, b in self.on.get(s, ()) if c in cs})


ALL = frozenset(range(1, 256))
CLS = {"alpha": "A-Za-z", "digit": "0-9", "alnum": "A-Za-z0-9", "space": " \\t\\n\\v\\f\\r", "blank": " \\t",
       "upper": "A-Z", "lower": "a-z", "xdigit": "0-9A-Fa-f"}
ESC = {"n": 10, "t": 9, "r": 13, "v": 11, "f": 12, "a": 7, "b": 8, "0": 0}


class Rx:
    """Patterns of flex, as far as they are used here."""

    def __init__(self, nfa, fold, defs=()):
        self.a, self.fold, self.defs = nfa, fold, dict(defs)

    def build(self, pat):
        self.s, self.i = pat, 0
        f = self.alt()
        if self.i != len(pat):
            raise Unclear("pattern %s" % pat)
        return f

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ""

    def case(self, cs):
        if not self.fold:
            return frozenset(cs)
        out = set(cs)
        for c in cs:
            if 65 <= c <= 90:
                out.add(c + 32)
            elif 97 <= c <= 122:
                out.add(c - 32)
        return frozenset(out)

    def chars(self, cs):
        a, b = self.a.new(), self.a.new()
        self.a.edge(a, b, self.case(cs))
        return a, b

    def alt(self):
        x = self.cat()
        while self.peek() == "|":
            self.i += 1
            y = self.cat()
            a, b = self.a.new(), self.a.new()
            for s, e in (x, y):
                self.a.edge(a, s)
                self.a.edge(e, b)
            x = (a, b)
        return x

    def cat(self):
        a = self.a.new()
        b = a
        while self.peek() and self.peek() not in "|)":
            s, e = self.post()
            self.a.edge(b, s)
            b = e
        return a, b

    def post(self):
        i0 = self.i
        s, e = self.atom()
        while True:
            c = self.peek()
            if c and c in "*+?":
                self.i += 1
                a, b = self.a.new(), self.a.new()
                self.a.edge(a, s)
                self.a.edge(e, b)
                if c in "*?":
                    self.a.edge(a, b)
                if c in "*+":
                    self.a.edge(e, s)
                s, e = a, b
            elif c == "{" and re.match(r"\{\d", self.s[self.i:]):
                raise Unclear("a counted repetition in pattern %s" % self.s)
            else:
                return s, e

    def atom(self):
        c = self.s[self.i]
        self.i += 1
        if c == "(":
            if self.peek() == "?":
                raise Unclear("pattern %s" % self.s)
            x = self.alt()
            if self.peek() != ")":
                raise Unclear("pattern %s" % self.s)
            self.i += 1
            return x
        if c == "[":
            return self.chars(self.cls())
        if c == ".":
            return self.chars(ALL - {10})
        if c == '"':
            j = self.i
            a = self.a.new()
            b = a
            while self.peek() != '"':
                if not self.peek():
                    raise Unclear("pattern %s" % self.s)
                s, e = self.chars({self.one()})
                self.a.edge(b, s)
                b = e
            self.i += 1
            return a, b
        if c == "{":
            m = re.match(r"(\w+)\}", self.s[self.i:])
            if not m or m.group(1) not in self.defs:
                raise Unclear("pattern %s" % self.s)
            self.i += m.end()
            keep = self.s, self.i
            r = self.build(self.defs[m.group(1)])
            self.s, self.i = keep
            return r
        if c in "^$/<>":
            raise Unclear("pattern %s" % self.s)
        self.i -= 1
        return self.chars({self.one()})

    def one(self):
        c = self.s[self.i]
        self.i += 1
        if c != "\\":
            return ord(c)
        d = self.s[self.i]
        self.i += 1
        if d in "x01234567" and d != "0":
            raise Unclear("pattern %s" % self.s)
        return ESC.get(d, ord(d))

    def cls(self):
        neg = self.peek() == "^"
        if neg:
            self.i += 1
        out = set()
        first = True
        while self.peek() != "]" or first:
            if not self.peek():
                raise Unclear("pattern %s" % self.s)
            first = False
            m = re.match(r"\[:(\w+):\]", self.s[self.i:])
            if m:
                if m.group(1) not in CLS:
                    raise Unclear("pattern %s" % self.s)
                keep = self.s, self.i + m.end()
                self.s, self.i = CLS[m.group(1)] + "]", 0
                out |= self.cls()
                self.s, self.i = keep
                continue
            a = self.one()
            if self.peek() == "-" and self.s[self.i + 1:self.i + 2] not in ("]", ""):
                self.i += 1
                b = self.one()
                out |= set(range(a, b + 1))
            else:
                out.add(a)
        self.i += 1
        cs = self.case(out)
        return ALL - cs if neg else cs


def automaton(rules, fold, defs=()):
    """One automaton for labelled patterns [(label, pattern)]: (nfa, start states, {state: rank}, labels)."""
    a = NFA()
    start = a.new()
    acc = {}
    labels = []
    skip = None
    for lab, pat in rules:
        s, e = Rx(a, fold, defs).build(pat)
        a.edge(start, s)
        k = len(labels)
        labels.append(lab)
        acc.setdefault(e, k)
        if lab == "skip":
            # what is skipped may be skipped in any portions
            if skip is None:
                skip = a.new()
                a.edge(start, skip)
            a.edge(skip, s)
            a.edge(e, skip)
    return a, a.closure({start}), acc, labels


def shortest(pat, fold, defs=()):
    """The length of the shortest text a pattern matches."""
    a = NFA()
    s, e = Rx(a, fold, defs).build(pat)
    ss, n, seen = a.closure({s}), 0, set()
    todo = {ss}
    while todo:
        if any(e in x for x in todo):
            return n
        seen |= todo
        todo = {a.move(x, c) for x in todo for c in range(1, 256)} - seen
        todo.discard(frozenset())
        n += 1
    raise Unclear("a pattern that matches nothing: %s" % pat)


def differ(one, two, limit=20000):
    """A shortest text that two labelled automata label differently: (text, label1, label2), or None."""
    def lab(x, ss):
        k = min((x[2][s] for s in ss if s in x[2]), default=None)
        return None if k is None else x[3][k]
    seen = {(one[1], two[1]): b""}
    todo = [(one[1], two[1])]
    while todo:
        nxt = []
        for p, q in todo:
            t = seen[p, q]
            if t:
                a, b = lab(one, p), lab(two, q)
                if a != b and not (len(t) == 1 and {a, b} == {None, "skip"}):
                    return t, a, b
            for c in range(1, 256):
                r = one[0].move(p, c), two[0].move(q, c)
                if r in seen or not (r[0] or r[1]):
                    continue
                if len(seen) > limit:
                    raise Unclear("the automata of the lexer are too large")
                seen[r] = t + bytes([c])
                nxt.append(r)
        todo = nxt
    return None


# ---------------------------------------------------------------- the documented language (detoxrc.5)

STR = ("QSTRING", "ID")
KINDS = {"ISO8859_1": "table", "UTF_8": "table", "SAFE": "table", "WIPEUP": "trailing", "MAX_LENGTH": "length",
         "UNCGI": None, "LOWER": None}
BOUNDARY = ("top", "body0", "body", "ign0", "ign")


def doc(st):
    """What may follow by the documentation: {token: (state, whether it must be accepted)}."""
    if st == "top":
        return {"SEQUENCE": ("seq", True), "IGNORE": ("ignore", True), "$end": ("end", True)}
    if st == "seq":
        return {t: ("seqo", True) for t in STR}
    if st == "seqo":
        return {"OPEN": ("body0", True)}
    if st in ("body0", "body"):
        d = {k: ((k, 0), True) for k in KINDS}
        if st == "body":
            d["CLOSE"] = ("close", True)
        return d
    if st in ("close", "iclose"):
        return {"EOL": ("top", True)}
    if st == "ignore":
        return {"OPEN": ("ign0", True)}
    if st in ("ign0", "ign"):
        d = {"FILENAME": ("ignf", True)}
        if st == "ign":
            d["CLOSE"] = ("iclose", True)
        return d
    if st == "ignf":
        return {t: ("ignl", True) for t in STR}
    if st == "ignl":
        return {"EOL": ("ign", True)}
    k, n = st
    o = KINDS[k]
    if n == 0:
        return {"EOL": ("body", o != "length"), "OPEN": ((k, 1), o is not None)}
    if n == 1:
        d = {"CLOSE": ((k, 2), False)}
        if o == "table":
            d["FILENAME"] = d["BUILTIN"] = ((k, "s"), True)
        elif o == "trailing":
            d["REMOVE_TRAILING"] = ((k, "e"), True)
        elif o == "length":
            d["LENGTH"] = ((k, "n"), True)
        return d
    if n == "s":
        return {t: ((k, "e"), True) for t in STR}
    if n == "n":
        return {"NVALUE": ((k, "e"), True)}
    if n == "e":
        return {"EOL": ((k, "c"), True)}
    if n == "c":
        return {"CLOSE": ((k, 2), True)}
    return {"EOL": ("body", True)}


class Code:
    """The actions of one statement as straight-line C."""
    count = [0]

    def __init__(self, lines=()):
        self.lines = list(lines)

    def fork(self):
        return Code(self.lines)

    def run(self, act, vals, below):
        if re.search(r"\bYY(ABORT|ERROR|ACCEPT|RECOVERING)\b|\bgoto\b|yychar|yylloc|@\$|yyvsp\s*[^\[]", re.sub(
                r"yyvsp\[-?\d+\]", "", act)):
            raise Unclear("an action steers the parser: %s" % act.strip()[:80])
        Code.count[0] += 1
        v = "v%d" % Code.count[0]
        n = len(vals)

        def of(m):
            k = int(m.group(1))
            x = vals[n - 1 + k] if 0 <= n - 1 + k < n else below[n - 1 + k] if -len(below) <= n - 1 + k < 0 else None
            return x or "v_none"
        text = re.sub(r"yyvsp\[(-?\d+)\]", of, act)
        text = re.sub(r"\byyval\b", v, text)
        self.lines.append("YYSTYPE %s = %s;" % (v, vals[0] if n and vals[0] else "v_none"))
        self.lines.append(text)
        return v


class Statement:
    def __init__(self, frm, to, toks, code, ends):
        self.frm, self.to, self.toks, self.code, self.ends = frm, to, toks, code, ends

    def text(self):
        return " ".join(t for t, _ in self.toks)

    def define(self, name):
        ps, body = ["char *name"], ["YYSTYPE v_none, v_name;", "v_name.string = name;"]
        for t, v in self.toks:
            if v and v != "v_name":
                ps.append(("char *p_%s" if t in STR else "int p_%s") % v)
                body.append("YYSTYPE %s; %s.%s = p_%s;" % (v, v, "string" if t in STR else "nvalue", v))
        if any(v == "v_name" for t, v in self.toks):
            pass
        return "void %s(%s)\n{\n%s\n}\n" % (name, ", ".join(ps), "\n".join(body + self.code.lines))


def statements(g, limit=200):
    """Explores the parser together with the documented language.
    -> (statements, refused, accepted, product states)"""
    out, refused, accepted = [], [], []
    start = [(0, None)]
    c0 = Code()
    g.settle(start, c0)
    if c0.lines:
        raise Unclear("actions before the first token")
    seen = set()
    todo = [("top", tuple(start))]
    toks = [t for t in g.terminals if t not in ("error", "$undefined")]
    names = 0
    while todo:
        b, stack = todo.pop()
        if (b, stack) in seen:
            continue
        seen.add((b, stack))
        if len(seen) > limit:
            raise Unclear("the stack of the parser grows with the number of statements")
        inner = [(b, stack, [], Code())]
        while inner:
            st, stk, path, code = inner.pop()
            want = doc(st)
            for t in toks:
                w = want.get(t)
                v = None
                if t in STR or t == "NVALUE":
                    v = "v_name" if st == "seq" else "t%d" % len(path)
                cd = code.fork()
                r = g.step(stk, t, v, cd)
                here = "%s: %s" % (b, " ".join(x for x, _ in path + [(t, None)]))
                if w is None:
                    if r is not None:
                        accepted.append(here)
                    continue
                if r is None:
                    if w[1]:
                        refused.append(here)
                    continue
                p2 = path + [(t, v)]
                if w[0] == "end":
                    if r != "accept":
                        refused.append(here)
                    out.append(Statement(b, "end", p2, cd, True))
                    continue
                if r == "accept":
                    accepted.append(here)
                    continue
                if w[0] in BOUNDARY:
                    keep = w[0] in ("body0", "body")
                    stack2 = tuple((s, x if x == "v_name" and keep else None) for s, x in r)
                    sh, go, red, acc, err = g.states[r[-1][0]]
                    s = Statement(b, w[0], p2, cd, not red)
                    s.stack = stack
                    s.held = any(x == "v_name" for _, x in stack2)
                    out.append(s)
                    todo.append((w[0], stack2))
                else:
                    inner.append((w[0], r, p2, cd))
    return out, refused, accepted, len(seen)
