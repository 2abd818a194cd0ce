#!/usr/bin/env python3
"""Write /verif/seeded/ID from the specifications in this directory: make.py [ID...]"""
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = "/verif/seeded"
BUGS = {}
for f in sorted(glob.glob(os.path.join(HERE, "set*.py"))):
    BUGS.update(runpy.run_path(f)["BUGS"])


def main():
    for sid in sys.argv[1:] or BUGS:
        b = BUGS[sid]
        w = tempfile.mkdtemp(prefix="mk-", dir="/tmp")
        try:
            subprocess.run("git -C /repo archive HEAD apps spoc spocpy | tar -x -C %s" % w, shell=True, check=True)
            subprocess.run("git init -q . && git add -A . && git -c user.name=a -c user.email=a@b commit -qm x", shell=True, cwd=w, check=True)
            for fn, old, new in b["edits"]:
                p = os.path.join(w, fn)
                t = open(p).read()
                if t.count(old) != 1:
                    sys.exit("%s: %d occurrences in %s of %r" % (sid, t.count(old), fn, old))
                open(p, "w").write(t.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, text=True, check=True).stdout
            d = os.path.join(SEEDED, sid)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexec python3 -B "$D/demo.py"\n')
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo.py"), "w").write("from d import *\n\n" + b["demo"].strip() + "\n\ndone()\n")
            shutil.copy(os.path.join(HERE, "d.py"), d)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
