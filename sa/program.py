"""Front end: /repo's current working tree -> merged program model (see DESIGN.md, "Front end").

The sources of the detox program are copied to a scratch directory, the lexer and the grammar are
regenerated there under the same rule as the build (only when the .l/.y is not the pinned one),
every unit is compiled by clang to unoptimised IR, run through mem2reg only, and read back."""
import hashlib
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

import llir

REPO = os.environ.get("DETOX_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
PINNED = {
    "config_file_yacc.y": "1a6a8cb9815ec2bc3114a3b4fd2e42c097fe54a3d3e658ae091b3ff152f39823",
    "config_file_lex.l": "29040c7332d82598d35ad4dcc558916e79f52df505c815e976d2e911077a39df",
}
DEFS = ['-DDATADIR="/usr/local/share"', '-DSYSCONFDIR="/usr/local/etc"', "-DYY_NO_INPUT", "-DYY_NO_UNPUT",
        "-D__NO_CTYPE", "-DHAVE_CONFIG_H"] + os.environ.get("SA_VARIANT", "").split()


class AnalysisBroken(Exception):
    """The program cannot be analysed (it does not compile, an anchor is gone): an error exit."""


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise AnalysisBroken("%s failed:\n%s" % (" ".join(cmd), r.stdout.decode("utf-8", "replace")[-3000:]))
    return r.stdout


def sources(var="detox_SOURCES"):
    text = open(os.path.join(REPO, "src", "Makefile.am")).read().replace("\\\n", " ")
    m = re.search(r"^%s\s*=\s*(.*)$" % var, text, re.M)
    if not m:
        raise AnalysisBroken("src/Makefile.am has no %s" % var)
    return [s for s in m.group(1).split() if not s.startswith("$")]


def _unit(work, name):
    src = "src/" + name
    ll0 = os.path.join(work, name + ".0.ll")
    ll = os.path.join(work, name + ".ll")
    run(["clang", "-S", "-emit-llvm", "-O0", "-g", "-gno-column-info", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w",
         "-std=gnu17", "-U_FORTIFY_SOURCE", "-I" + os.path.join(HERE, "include"), "-Isrc"] + DEFS + [src, "-o", ll0],
        cwd=work)
    run(["opt", "-S", "-passes=mem2reg", ll0, "-o", ll])
    with open(ll) as f:
        return llir.parse_module(f.read(), name)


class Program:
    """All units of one program, with names resolved across units."""

    def __init__(self, mods):
        self.mods = mods
        self.funcs, self.globals, self.structs, self.fieldnames = {}, {}, {}, {}
        for m in mods:
            for f in m.funcs.values():
                f.key = f.name if not f.static else "%s:%s" % (m.name, f.name)
                if f.defined:
                    self.funcs[f.key] = f
            for g in m.globals.values():
                g.key = g.name if not g.static else "%s:%s" % (m.name, g.name)
                if not g.external:
                    self.globals[g.key] = g
            for n, s in m.structs.items():
                nn = re.sub(r"^(struct|union)\.", "", n)
                if s.fields:
                    self.structs.setdefault(nn, s)
            for n, d in m.fieldnames.items():
                self.fieldnames.setdefault(n, d)
        self.byname = {}
        for f in self.funcs.values():
            self.byname.setdefault(f.name, []).append(f)

    def func(self, mod, name):
        """The definition a reference to `name` from module `mod` denotes, or None (external)."""
        f = mod.funcs.get(name)
        if f is not None and f.defined:
            return f
        return self.funcs.get(name)

    def glob(self, mod, name):
        g = mod.globals.get(name)
        if g is not None and not g.external:
            return g
        return self.globals.get(name, g)

    def fn(self, name):
        """A function by plain name, wherever it is defined (static or not)."""
        c = self.byname.get(name, [])
        return c[0] if len(c) == 1 else self.funcs.get(name)

    def need(self, name):
        f = self.fn(name)
        if f is None:
            raise AnalysisBroken("anchor missing: function %s is not defined in the program" % name)
        return f

    def offset(self, struct, field):
        d = self.fieldnames.get(struct) or {}
        for o, n in d.items():
            if n == field:
                return o
        raise AnalysisBroken("anchor missing: field %s.%s" % (struct, field))

    def field(self, struct, off):
        return (self.fieldnames.get(struct) or {}).get(off)


KINDS = ("ISO8859_1", "LOWER", "MAX_LENGTH", "SAFE", "UNCGI", "UTF_8", "WIPEUP")


def _kinds(work):
    """The numbers of the filter kinds, from the header that defines them."""
    src = os.path.join(work, "src", "sa_kinds.c")
    with open(src, "w") as f:
        f.write('#include "detox_struct.h"\n' + "".join("int sa_%s = FILTER_%s;\n" % (k, k) for k in KINDS))
    try:
        out = run(["clang", "-S", "-emit-llvm", "-O0", "-w", "-I" + os.path.join(HERE, "include"), "-Isrc"] + DEFS +
                  [src, "-o", "-"], cwd=work).decode()
    except AnalysisBroken:
        return {}
    return {m.group(1): int(m.group(2)) for m in re.finditer(r"@sa_(\w+) = .*? global i32 (-?\d+|zeroinitializer)", out)
            if m.group(2) != "zeroinitializer"}


def load(var="detox_SOURCES", keep=None, patch=None):
    work = tempfile.mkdtemp(prefix="detox-sa-")
    try:
        os.mkdir(os.path.join(work, "src"))
        for n in sorted(os.listdir(os.path.join(REPO, "src"))):
            p = os.path.join(REPO, "src", n)
            if os.path.isfile(p) and n.endswith((".c", ".h", ".y", ".l")):
                shutil.copyfile(p, os.path.join(work, "src", n))
        regenerated = []
        for g, pin in PINNED.items():
            p = os.path.join(work, "src", g)
            if not os.path.exists(p):
                continue
            if hashlib.sha256(open(p, "rb").read()).hexdigest() != pin:
                c = g[:-2] + ".c"
                if g.endswith(".y"):
                    run(["bison", "-y", "-d", "-o", c, g], cwd=os.path.join(work, "src"))
                else:
                    run(["flex", "-i", "-o", c, g], cwd=os.path.join(work, "src"))
                regenerated.append(g)
        extra = patch(os.path.join(work, "src")) if patch else None
        names = [re.sub(r"\.[yl]$", ".c", s) for s in sources(var)]
        for nm in names:
            if not os.path.exists(os.path.join(work, "src", nm)):
                raise AnalysisBroken("source %s listed in Makefile.am is missing" % nm)
        with ThreadPoolExecutor(8) as ex:
            mods = list(ex.map(lambda n: _unit(work, n), names))
        p = Program(mods)
        p.units, p.regenerated = names, regenerated
        p.kinds = _kinds(work)
        p.extra = extra
        if keep:
            keep(work, p)
        return p
    finally:
        shutil.rmtree(work, ignore_errors=True)
