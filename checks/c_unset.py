"""C45: nothing is used before it has been written. The unwritten-value flow of the clang analyzer, across the units of
the program (the callee's body is taken from the unit that defines it) and once more function by function."""
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

import program
from program import AnalysisBroken
from c_own import GENERATED

CHECKERS = {
    "core.uninitialized.Branch": "branch",
    "core.uninitialized.Assign": "value",
    "core.uninitialized.ArraySubscript": "value",
    "core.uninitialized.UndefReturn": "value",
    "core.uninitialized.NewArraySize": "value",
    "core.uninitialized.CapturedBlockVariable": "value",
    "core.UndefinedBinaryOperatorResult": "value",
    "core.CallAndMessage": "argument",
    "alpha.unix.cstring.UninitializedRead": "argument",
    "core.NullDereference": "address",
}
ON = ("core.uninitialized,core.UndefinedBinaryOperatorResult,core.CallAndMessage,core.builtin,core.NullDereference,"
      "unix.DynamicMemoryModeling,unix.cstring.CStringModeling,apiModeling,alpha.unix.cstring.UninitializedRead,"
      "debug.Stats")
UNSET = re.compile(r"uninitialized|garbage|undefined|undef\b", re.I)
LINE = re.compile(r"^(\S+?):(\d+):(\d+): (warning|note): (.*?)(?: \[([A-Za-z.]+)\])?$")
STATS = re.compile(r"^(\S+) -> Total CFGBlocks: (\d+) \| Unreachable CFGBlocks: (\d+) \| "
                   r"Exhausted Block: (\w+) \| Empty WorkList: (\w+)")
WHOLE = ("experimental-enable-naive-ctu-analysis=true,ctu-dir=%s,ctu-phase1-inlining=all,ctu-import-threshold=200,"
         "max-inlinable-size=500,max-times-inline-large=200")


def flags():
    return ["-std=gnu17", "-U_FORTIFY_SOURCE", "-I" + os.path.join(program.HERE, "include"), "-Isrc", "-include",
            os.path.join(program.HERE, "include", "unset.h")] + program.DEFS


def definitions(work, names):
    """Where each function of the program is defined, in the form the analyzer reads."""
    def one(n):
        program.run(["clang", "-emit-ast", "-w"] + flags() + ["src/" + n, "-o", "src/%s.ast" % n], cwd=work)
        r = subprocess.run(["clang-extdef-mapping-18", os.path.join(work, "src", n), "--"] + flags() +
                           ["-w", "-I" + os.path.join(work, "src")], cwd=work, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL)
        if r.returncode:
            raise AnalysisBroken("the definitions of %s cannot be listed" % n)
        return ["%s src/%s.ast" % (x.rsplit(" ", 1)[0], n) for x in r.stdout.decode().splitlines() if " " in x]
    with ThreadPoolExecutor(8) as ex:
        lines = sorted({x for xs in ex.map(one, names) for x in xs})
    with open(os.path.join(work, "externalDefMap.txt"), "w") as f:
        f.write("\n".join(lines) + "\n")
    return len(lines)


def analyse(work, name, config, turns):
    cmd = ["clang", "--analyze", "--analyzer-no-default-checks"]
    for x in ("-analyzer-output=text", "-analyzer-checker=" + ON, "-analyzer-max-loop", turns, "-analyzer-config",
              config + ",max-nodes=400000"):
        cmd += ["-Xclang", x]
    r = subprocess.run(cmd + flags() + ["src/" + name, "-o", "/dev/null"], cwd=work, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    text = r.stdout.decode("utf-8", "replace")
    if r.returncode:
        raise AnalysisBroken("%s cannot be analysed:\n%s" % (name, text[-2000:]))
    return parse(text)


def parse(text):
    """([report], {function: figures}); a report is (unit, line, message, checker, [path notes])."""
    reports, stats, cur = [], {}, None
    for l in text.splitlines():
        m = LINE.match(l)
        if not m:
            continue
        unit, line, kind, msg, checker = os.path.basename(m.group(1)), int(m.group(2)), m.group(4), m.group(5), m.group(6)
        if kind == "warning":
            cur = None
            s = STATS.match(msg)
            if checker == "debug.Stats":
                if s:
                    stats[unit, s.group(1)] = (int(s.group(2)), int(s.group(3)), s.group(4) == "no" and
                                               s.group(5) == "yes")
            elif checker in CHECKERS and UNSET.search(msg):
                cur = (unit, line, msg, checker, [])
                reports.append(cur)
        elif cur is not None:
            cur[4].append("%s:%d %s" % (unit, line, msg))
    return reports, stats


def enclosing(p, unit, line):
    best = None
    for f in p.funcs.values():
        if f.module.name != unit:
            continue
        for b in f.blocks.values():
            for i in b.insts:
                if i.line == line:
                    best = f
    return best.name if best is not None else unit


def of_text(p, unit, line):
    """Whether a line reads bytes of text: what a buffer of characters holds is judged by C15, C16, C18 and C20 to C25,
    whose model knows where a string ends."""
    for f in p.funcs.values():
        if f.module.name == unit:
            for b in f.blocks.values():
                for i in b.insts:
                    if i.line == line and i.op == "load" and i.ty.kind == "int" and i.ty.bits == 8:
                        return True
    return False


def c45(rep):
    R = {k: rep.rule(k, v, k == "branch") for k, v in {
        "branch": "No branch is decided by a value that was never written.",
        "value": "No value that was never written is computed with, kept, used as an index or returned.",
        "argument": "No value that was never written is passed to a function.",
        "address": "No address that was never written is followed.",
    }.items()}
    turns = os.environ.get("SA_TURNS", "4")
    got = {}

    def keep(work, p):
        got["defs"] = definitions(work, p.units)
        jobs = [(n, WHOLE % work) for n in p.units] + [(n, "ipa=none") for n in p.units]
        with ThreadPoolExecutor(8) as ex:
            got["runs"] = list(zip(jobs, ex.map(lambda j: analyse(work, j[0], j[1], turns), jobs)))
    p = program.load(keep=keep)
    seen, blocks, reached, cut = {}, 0, 0, 0
    whole = 0
    for (unit, config), (reports, stats) in got["runs"]:
        alone = config == "ipa=none"
        for u, line, msg, checker, notes in reports:
            fn = enclosing(p, u, line)
            where = "%s:%s:%d" % (u, fn, line)
            if fn.startswith(GENERATED) or fn == u:
                continue  # the driver that bison or flex wrote
            if of_text(p, u, line):
                rep.unsure(R[CHECKERS[checker]], where, "a byte of text may not have been written: %s" % msg)
            else:
                rep.bad(R[CHECKERS[checker]], where, "%s\n    %s" % (msg, "\n    ".join(notes[-12:])))
        for (u, fn), (total, left, done) in sorted(stats.items()):
            if fn.startswith(GENERATED):
                continue
            if not alone:
                whole += 1
                continue
            seen[u, fn] = True
            blocks += total
            reached += total - left
            cut += not done
            for r in R:
                rep.ok(R[r], "%s:%s" % (u, fn), "%d of %d basic blocks reached, %s" % (
                    total - left, total, "all paths followed" if done else "loops followed for %s turns" % turns))
    rep.note(functions=len(seen), functions_with_callees_from_other_units=whole, definitions=got["defs"],
             basic_blocks=blocks, basic_blocks_reached=reached, functions_with_bounded_loops=cut)

