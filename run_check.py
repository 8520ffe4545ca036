"""Run one property check:  python3-vt run_check.py C01 [--tier quick|thorough] [--root /repo]

Exit 0: every obligation holds or is undecided (see evidence).  Exit 1: VIOLATION line printed.
Exit 2: the analysis itself is broken (an anchor disappeared, or fewer obligations than expected).
"""

import argparse
import importlib
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def known_findings():
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                m = re.match(r"known: property=(\S+) obligation=\[(.*?)\] (.*)", line.strip())
                if m:
                    out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--evidence", default=os.path.join(HERE, "evidence"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"

    from pyvg.check import Check
    from pyvg.interp import AnalysisBroken

    mod = importlib.import_module("checks." + a.property.lower())
    try:
        ck = Check(a.property, tier, seed, a.root, budget=getattr(mod, "BUDGET", 420))
        ck.run(mod.run, known_findings())
        code = ck.finish(mod.MINIMUM, known_findings(), a.evidence)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN: property=%s %s" % (a.property, e))
        code = 2
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    import threading

    threading.stack_size(1 << 29)
    box = []

    def go():
        try:
            main()
        except SystemExit as e:
            box.append(e.code)
        except BaseException:
            import traceback

            traceback.print_exc()
            box.append(3)

    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.exit(box[0] if box else 3)
