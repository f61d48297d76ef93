"""developer entry: python3-vt -m gover DUMP name-substring ..."""
import json
import sys
import glob
import os
from .ty import World
from .speclang import Specs
from . import vfun


def main():
    d = json.load(open(sys.argv[1]))
    w = World(d)
    sp = Specs()
    for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "..", "contracts", "*.spec"))):
        sp.load(f)
    sys.setrecursionlimit(20000)
    verbose = "-v" in sys.argv
    for pat in sys.argv[2:]:
        if pat.startswith("-"):
            continue
        if pat.startswith("lemma:"):
            names = [n for n in list(sp.lemmas) + ["arith", "bits"] if pat[6:] in n]
            rs = [vfun.verify_lemma(w, sp, n) for n in names]
        else:
            names = [n for n, c in sp.contracts.items() if pat in n and not c.trusted and n in w.funcs]
            rs = (vfun.verify_function(w, sp, n, 20) for n in names)
        for r in rs:
            bad = [o for o in r["obs"] if o["status"] != "proved"]
            print("%s %s: %d obligations, %d open, %.1fs paths=%s quick=%s %s" % ("OK  " if not bad and not r["error"] else "FAIL", r["name"], len(r["obs"]), len(bad), r.get("t", 0), r.get("paths"), r.get("quick"), r["error"] or ""))
            if r["error"] and verbose:
                print(r.get("trace"))
            for o in bad:
                print("     ", o["name"], o["pos"], o["status"], o["t"], o["cex"] if verbose else "")
            if verbose:
                for o in r["obs"]:
                    if o["t"] > 1:
                        print("      slow", o["name"], o["t"], o["backend"])
                print("      called", r["called"], "inlined", r["inlined"], "lemmas", r["lemmas"], "notes", r["notes"])


main()
