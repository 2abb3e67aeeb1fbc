#!/usr/bin/env python3
"""mkseed.py <dir with spec.py>: makes seeded/<id> from a description.

spec.py: ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], CASE (text of
case.py) or FILES {name: text}.  The edits are applied to /repo, the diff is
stored and the working tree is restored."""
import json
import os
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def git(*a):
    return subprocess.run(("git", "-C", REPO) + a, check=True,
                          stdout=subprocess.PIPE).stdout.decode()


def main():
    assert not git("status", "--porcelain").strip()
    s = runpy.run_path(sys.argv[1])
    try:
        for path, old, new in s["EDITS"]:
            p = os.path.join(REPO, path)
            text = open(p).read()
            assert text.count(old) == 1, (path, text.count(old), old)
            open(p, "w").write(text.replace(old, new))
        diff = git("diff")
    finally:
        git("checkout", "--", ".")
    d = os.path.join(ROOT, "seeded", s["ID"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"],
               "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"),
              indent=1)
    here = os.path.join(ROOT, "tools", "seed")
    if "CASE" in s:
        for f in ("qdemo.py", "demo.sh"):
            shutil.copy(os.path.join(here, f), d)
        open(d + "/case.py", "w").write(s["CASE"])
    for name, text in s.get("FILES", {}).items():
        open(os.path.join(d, name), "w").write(text)
    os.chmod(d + "/demo.sh", 0o755)
    print("made", d)


main()
