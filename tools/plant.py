"""Confirm planted bugs in a scratch copy and store them under seeded/.

usage: plant.py BUGS.py   (BUGS.py defines BUGS = [dict(id, property, file, edits=[(old, new)], needs, breaks, demo)])
"""

import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n' \
          'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=cwd)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def tests(root):
    return run([PY, "-W", "ignore", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], root)


def main(path):
    bugs = runpy.run_path(path)["BUGS"]
    only = set(sys.argv[2:])
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        for b in bugs:
            if only and b["id"] not in only:
                continue
            root = os.path.join(tmp, "r")
            if os.path.exists(root):
                shutil.rmtree(root)
            subprocess.run(["git", "clone", "-q", "/repo", root], check=True)
            for f, old, new in b["edits"]:
                p = os.path.join(root, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "FAILED: text occurs %d times: %r" % (s.count(old), old))
                    break
                open(p, "w").write(s.replace(old, new))
            else:
                code, out = tests(root)
                if code:
                    print(b["id"], "FAILED: tests", out[-600:])
                    continue
                d = os.path.join(HERE, "seeded", b["id"])
                os.makedirs(d, exist_ok=True)
                diff = subprocess.run(["git", "-C", root, "diff"], stdout=subprocess.PIPE, text=True).stdout
                open(os.path.join(d, "patch.diff"), "w").write(diff)
                open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
                open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
                os.chmod(os.path.join(d, "demo.sh"), 0o755)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                          open(os.path.join(d, "meta.json"), "w"), indent=1)
                bad, o1 = run(["bash", os.path.join(d, "demo.sh")], root)
                subprocess.run(["git", "-C", root, "checkout", "-q", "--", "."], check=True)
                good, o2 = run(["bash", os.path.join(d, "demo.sh")], root)
                if bad == 0 or good != 0:
                    print(b["id"], "FAILED: demo with patch %d, without %d" % (bad, good), o1[-300:], o2[-300:])
                    shutil.rmtree(d)
                else:
                    print(b["id"], "planted;", o1.strip().splitlines()[-1][:150] if o1.strip() else "")
    finally:
        shutil.rmtree(tmp)


main(sys.argv[1])
