#!/usr/bin/env python3
"""check.py <property id>: decides one property of /repo's current sources by static analysis."""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "sa"), os.path.join(HERE, "checks")]
sys.setrecursionlimit(20000)

import program  # noqa: E402
from engine import Budget  # noqa: E402
from report import Report  # noqa: E402

WHERE = {}
for mod, ids in {
    "c_files": "C01 C02 C03 C04 C05 C06 C07 C08 C12 C42 C43",
    "c_options": "C09 C10 C11 C34",
    "c_bounds": "C15 C16 C18",
    "c_config": "C26 C27 C30 C31",
    "c_tables": "C17 C33 C37",
    "c_parse": "C36",
    "c_dump": "C35",
    "c_grammar": "C28 C29 C32",
    "c_inline": "C38",
    "c_own": "C13 C14 C19",
    "c_idem": "C39",
    "c_hang": "C44",
    "c_unset": "C45",
    "c_filters": "C20 C21 C22 C23 C24 C25",
}.items():
    for i in ids.split():
        WHERE[i] = mod


# other builds of the same sources, analysed by the thorough tier
VARIANTS = {"-DDEBUG": "with the debug statements", "-funsigned-char": "with char unsigned, as on ARM"}


def variants(pid):
    """The same property of the other builds; what they cover is added to the evidence."""
    name, rc = os.path.join(HERE, "evidence", pid + ".json"), 0
    with open(name) as f:
        doc = json.load(f)
    doc["coverage"]["variants"] = {}
    for v in VARIANTS:
        tmp = tempfile.mkdtemp(prefix="detox-sa-")
        try:
            r = subprocess.run([sys.executable, os.path.abspath(__file__), pid], stdout=subprocess.PIPE, text=True,
                               env=dict(os.environ, SA_VARIANT=v, SA_EVIDENCE=tmp, VERIF_TIER="quick"))
            print("%s: %s" % (v, r.stdout.strip().replace(tmp, "evidence")))
            if r.returncode:
                rc = rc or r.returncode
                for n in os.listdir(tmp):
                    if n.endswith(".violation.txt"):
                        shutil.copyfile(os.path.join(tmp, n), os.path.join(HERE, "evidence", n))
                        doc["violations"] = doc.get("violations", 0) + 1
                        print("VIOLATION property=%s replay=evidence/%s" % (pid, n))
            else:
                with open(os.path.join(tmp, pid + ".json")) as f:
                    c = json.load(f)["coverage"]
                doc["coverage"]["variants"][v] = {"what": VARIANTS[v], "obligations": c["obligations"],
                                                  "discharged": c["discharged"], "undecided": c["undecided"]}
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    with open(name, "w") as f:
        json.dump(doc, f, indent=1, sort_keys=True)
        f.write("\n")
    return rc


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier == "thorough" and not os.environ.get("SA_VARIANT"):
        r = subprocess.run([sys.executable, os.path.abspath(__file__), pid],
                           env=dict(os.environ, VERIF_TIER="quick", SA_TURNS="8"))
        if r.returncode:
            return r.returncode
        name = os.path.join(HERE, "evidence", pid + ".json")
        with open(name) as f:
            doc = json.load(f)
        doc["tier"] = "thorough"
        with open(name, "w") as f:
            json.dump(doc, f, indent=1, sort_keys=True)
            f.write("\n")
        return variants(pid)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = Report(pid)
    rep.tier = tier
    m = importlib.import_module(WHERE[pid])
    try:
        getattr(m, pid.lower())(rep)
    except program.AnalysisBroken as e:
        if str(e).startswith("anchor missing"):
            rep.unsure("analysis", str(e), "the code this property is anchored in is not found under its name")
            rep.need.clear()
            return rep.finish(tier, seed)
        print("ANALYSIS-BROKEN: %s" % e)
        if not rep.badl:
            rep.finish(tier, seed, open(os.devnull, "w"))
            return 2
    except Budget as e:
        rep.unsure("analysis", str(e), "the analysis was cut short")
        rep.need.clear()
    except Exception as e:  # a form of code the analysis does not understand
        traceback.print_exc(limit=-4)
        rep.unsure("analysis", "%s: %s" % (type(e).__name__, e), "the analysis could not follow the code")
        rep.need.clear()
    return rep.finish(tier, seed)


if __name__ == "__main__":
    sys.exit(main())
