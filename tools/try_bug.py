#!/usr/bin/env python3
"""Try planted bugs the way they are judged, without touching /repo.

  try_bug.py [--no-check] [--checks C01,C02] ID...

Each one is tried in a mount namespace of its own, where a scratch copy lies over /repo and another over /verif:
the patch has to apply to HEAD, touch only lines of the original repository, build, and pass the stable tests;
demo.sh has to exit 0 without it and nonzero with it; then the property's quick check is run against it.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = "/verif"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def inside(seed_dir, repo_copy, verif_copy, out, checks, no_check):
    """Runs in the namespace."""
    for a, b in ((repo_copy, "/repo"), (verif_copy, "/verif")):
        subprocess.run(["mount", "--bind", a, b], check=True)
    os.chdir("/repo")
    git = ["git", "-c", "safe.directory=*"]
    meta = json.load(open(os.path.join(seed_dir, "meta.json")))
    res = {"id": os.path.basename(seed_dir.rstrip("/")), "property": meta["property"], "problems": []}
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    demo_home = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
    for f in os.listdir(seed_dir):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy2(os.path.join(seed_dir, f), demo_home)
    demo = lambda: sh(["bash", os.path.join(demo_home, "demo.sh")], timeout=300, stdin=subprocess.DEVNULL)
    try:
        sh(["bash", "/opt/vp/build.sh"])
        d = demo()
        if d.returncode != 0:
            res["problems"].append("demo fails on the unchanged tree: " + d.stdout[-800:])
        a = sh(git + ["apply", os.path.join(seed_dir, "patch.diff")])
        if a.returncode != 0:
            res["problems"].append("patch does not apply: " + a.stdout)
            return res
        diff = sh(git + ["diff", "--numstat"]).stdout.split("\n")
        res["files"] = [x.split("\t")[2] for x in diff if x]
        # lines of the original repository only
        base = sh(git + ["rev-list", "--max-parents=0", "HEAD"]).stdout.split()[0]
        for f in res["files"]:
            blame = sh(git + ["blame", "-s", "-l", base + "..HEAD", "HEAD", "--", f]) if False else sh(git + ["blame", "-s", "-l", "HEAD", "--", f])
            own = {i + 1: l.split()[0].lstrip("^") for i, l in enumerate(blame.stdout.split("\n")) if l}
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))?", sh(git + ["diff", "-U0", "--", f]).stdout, re.M):
                n = int(m.group(2)) if m.group(2) is not None else 1
                for k in range(int(m.group(1)), int(m.group(1)) + n):
                    if not base.startswith(own.get(k, base)[:39]):
                        res["problems"].append("%s:%d is a line of our own" % (f, k))
        t = sh(["bash", "/opt/vp/test.sh", out + ".tests"])
        passed = set(json.load(open(out + ".tests"))["passed"])
        if not stable <= passed:
            res["problems"].append("stable tests fail: %s %s" % (sorted(stable - passed)[:5], t.stdout[-600:] if not passed else ""))
        d = demo()
        res["demo"] = d.stdout[-300:]
        if d.returncode == 0:
            res["problems"].append("demo passes with the patch")
        if not no_check:
            res["checks"] = {}
            for c in checks or [meta["property"]]:
                env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
                r = sh(["python3", "/verif/check.py", c, "quick"], cwd="/verif", env=env)
                caught = r.returncode == 1 and ("VIOLATION property=%s " % c) in r.stdout
                res["checks"][c] = {"caught": caught, "rc": r.returncode, "tail": r.stdout[-1500:]}
    finally:
        shutil.rmtree(demo_home, ignore_errors=True)
        json.dump(res, open(out, "w"), indent=1)
    return res


def main():
    args = sys.argv[1:]
    if args and args[0] == "--inside":
        inside(args[1], args[2], args[3], args[4], json.loads(args[5]), args[6] == "1")
        return
    no_check = "--no-check" in args
    args = [a for a in args if a != "--no-check"]
    checks = []
    if "--checks" in args:
        i = args.index("--checks")
        checks = args[i + 1].split(",")
        del args[i:i + 2]
    for sid in args:
        w = tempfile.mkdtemp(prefix="try-", dir="/tmp")
        try:
            subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
            sd = os.path.join(VERIF, "seeded", sid)
            shutil.copytree(sd, w + "/seed/" + sid)
            shutil.copytree(VERIF, w + "/verif", ignore=shutil.ignore_patterns("build", ".git", "seeded", "replays", "evidence", "__pycache__"))
            out = w + "/out.json"
            p = subprocess.run(["unshare", "-m", "python3", os.path.abspath(__file__), "--inside", w + "/seed/" + sid, w + "/repo", w + "/verif", out, json.dumps(checks), "1" if no_check else "0"])
            if not os.path.exists(out):
                print("%s: no result (%d)" % (sid, p.returncode))
                continue
            r = json.load(open(out))
            os.makedirs("/tmp/try", exist_ok=True)
            json.dump(r, open("/tmp/try/%s.json" % sid, "w"), indent=1)
            print("%s [%s] %s" % (sid, r["property"], "ok" if not r["problems"] else "PROBLEMS " + "; ".join(r["problems"])))
            for c, v in r.get("checks", {}).items():
                print("   %s: %s (rc %d)" % (c, "CAUGHT" if v["caught"] else "MISSED", v["rc"]))
                if not v["caught"]:
                    print("      " + v["tail"][-600:].replace("\n", "\n      "))
                else:
                    print("      " + v["tail"].split("\n")[0][:200])
            sys.stdout.flush()
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
