"""Run checks against planted bugs in scratch clones. usage: score.py [--all] [BUG...]"""

import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def check(args):
    bug, prop, root = args
    p = subprocess.run(["python3-vt", os.path.join(HERE, "run_check.py"), prop, "--root", root, "--evidence",
                        root + ".ev"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return bug, prop, p.returncode, p.stdout


def main():
    argv = sys.argv[1:]
    every = "--all" in argv
    want = [a for a in argv if not a.startswith("--")]
    bugs = sorted(d for d in os.listdir(os.path.join(HERE, "seeded")) if not want or d in want)
    props = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    tmp = tempfile.mkdtemp(prefix="score")
    try:
        jobs = []
        for b in bugs:
            root = os.path.join(tmp, b)
            subprocess.run(["git", "clone", "-q", "/repo", root], check=True)
            subprocess.run(["git", "-C", root, "apply", os.path.join(HERE, "seeded", b, "patch.diff")], check=True)
            own = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))["property"]
            jobs += [(b, p, root) for p in (props if every else [own])]
        with ThreadPoolExecutor(7) as ex:
            res = list(ex.map(check, jobs))
        for b in bugs:
            own = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))["property"]
            rs = [r for r in res if r[0] == b]
            hit = [r[1] for r in rs if r[2] == 1]
            err = [r[1] for r in rs if r[2] not in (0, 1)]
            print(b, own, "CAUGHT" if own in hit else "MISSED", "by", hit, ("errors %s" % err) if err else "")
            if own not in hit:
                for r in rs:
                    if r[1] == own:
                        print("   ", r[3][-700:])
    finally:
        shutil.rmtree(tmp)


main()
