#!/usr/bin/env python3
"""Small mechanical changes to the sources, each run against the checks that look at the file.

  mutate.py list [FILE...]              print the changes
  mutate.py rerun OUT.jsonl [-j N]      once more what survived, at full size
  mutate.py run OUT.jsonl [-j N] [-n LIMIT] [-s SEED] [FILE...]

Survivors are changes no check saw: either they change nothing observable, or a check is missing something.
Works on copies under /tmp; /repo is only read.
"""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time

REPO = "/repo"
VERIF = "/verif"
MAP = {
    "spoc/affine.h": "C18 C24 C42", "spoc/app_utils.h": "C39 C25 C21 C38 C27 C23 C05", "spoc/asprs.h": "C47 C35", "spoc/cmd.h": "C49 C38 C43",
    "spoc/compression.h": "C07 C02 C06 C05 C03 C50", "spoc/extent.h": "C11 C51 C12 C10 C14 C31 C13", "spoc/file.h": "C08 C09 C01 C29 C03 C44 C50",
    "spoc/header.h": "C01 C09 C05 C06 C10 C34 C08 C04", "spoc/io.h": "C01 C02 C04 C05 C06 C41 C40 C38 C42", "spoc/json.h": "C37 C35",
    "spoc/point.h": "C46 C51 C10 C18 C16 C20", "spoc/point_record.h": "C10 C46 C01 C05 C06 C25 C08 C34 C41", "spoc/radius_search.h": "C16 C17 C51 C42",
    "spoc/subsampling.h": "C14 C15 C51", "spoc/utils.h": "C10 C19 C20 C28 C42", "spoc/voxel.h": "C13 C30 C14 C16 C42",
    "apps/compress": "C03 C38 C43 C05 C06", "apps/decompress": "C03 C38 C43 C05 C06", "apps/diff": "C34 C38 C43 C05",
    "apps/filter": "C21 C23 C22 C14 C15 C38 C43 C06", "apps/info": "C35 C38 C43 C05", "apps/merge": "C33 C38 C43 C06", "apps/srs": "C36 C38 C43 C09 C06",
    "apps/tile": "C31 C51 C32 C38 C43 C06 C33", "apps/tool": "C27 C28 C29 C30 C38 C43 C09 C06", "apps/transform": "C24 C25 C26 C18 C19 C43 C38 C41 C06",
    "spocpy/spocpy/spocpy.cpp": "C40", "examples": "C41 C05 C06",
}


def files():
    out = subprocess.run(["git", "-C", REPO, "ls-files", "spoc", "apps", "spocpy/spocpy/spocpy.cpp", "examples"], stdout=subprocess.PIPE, text=True).stdout.split()
    return [f for f in out if f.endswith((".h", ".cpp")) and checks(f) and not re.search(r"spoc/(test_utils|benchmark_utils|version|contracts|spoc)\.h", f)]


def checks(f):
    best = [k for k in MAP if f.startswith(k)]
    return MAP[max(best, key=len)].split() if best else []


SUBS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "),
    (r" \+= ", " -= "), (r" -= ", " += "), (r" \*= ", " /= "), (r"(?<=[(\s])!(?=[a-z(])", ""),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\bdouble\b", "float"), (r"\buint64_t\b", "uint32_t"), (r"\bsize_t\b", "uint16_t"), (r"\buint32_t\b", "uint16_t"), (r"\buint16_t\b", "uint8_t"),
    (r"(?<=[.\b])x\b", "y"), (r"(?<=\.)y\b", "z"), (r"(?<=\.)z\b", "x"), (r"(?<=\.)r\b", "g"), (r"(?<=\.)g\b", "b"), (r"(?<=\.)b\b", "r"),
    (r"(?<=\.)c\b", "p"), (r"(?<=\.)p\b", "c"), (r"(?<=\.)i\b", "c"), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bminp\b", "maxp"), (r"\bmaxp\b", "minp"),
    (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\bfloor\b", "round"), (r"\bcos\b", "sin"), (r"\bsin\b", "cos"),
    (r"\bstod\b", "stof"), (r"\blower_bound\b", "upper_bound"), (r"\+\+", "--"),
    (r"(?<![\w.\"'])(\d+)(?![\w.\"'])", lambda m: str(int(m.group(1)) + 1)), (r"(?<![\w.\"'])([1-9]\d*)(?![\w.\"'])", lambda m: str(int(m.group(1)) - 1)),
    (r"'([a-z])'", lambda m: "'%s'" % ("q" if m.group(1) != "q" else "k")), (r":(?=[a-z:]*\")", ""),
    (r"setprecision \((\d+)\)", lambda m: "setprecision (%d)" % (int(m.group(1)) - 2)),
]


def mutants(f):
    text = open(os.path.join(REPO, f)).read()
    lines = text.split("\n")
    out = []
    for n, l in enumerate(lines):
        code = l.split("//")[0]
        t = code.strip()
        if not t or t.startswith(("#", "/*", "*", "using ", "template", "namespace", "assert", "REQUIRE", "ENSURE", "return -1", "return_code = -1")):
            continue
        seen = set()

        def add(new, why):
            if new != l and new not in seen:
                seen.add(new)
                out.append({"file": f, "line": n + 1, "old": l, "new": new, "why": why})
        for pat, rep in SUBS:
            for m in re.finditer(pat, code):
                # inside a string literal: only the option letters and numbers
                if code[:m.start()].count('"') % 2 == 1 and not pat.startswith(":(?="):
                    continue
                r = rep(m) if callable(rep) else m.expand(rep)
                add(code[:m.start()] + r + code[m.end():], pat)
        m = re.match(r"^(\s*(?:else )?if \()(.*)(\)\s*\{?)$", code)
        if m:
            add(m.group(1) + "false && (" + m.group(2) + ")" + m.group(3), "if false")
            add(m.group(1) + "true || (" + m.group(2) + ")" + m.group(3), "if true")
        if re.match(r"^\s*[a-zA-Z_:.\->\[\] ]+(\(| =| \+=|<<|\+\+).*;$", code) and not re.match(r"^\s*(const|auto|return|using|std::\w+(<.*>)? \w+|double|int|size_t|bool|char|throw|case)\b", code):
            add(re.match(r"^\s*", code).group(0) + ";", "deleted")
        m = re.match(r"^(\s*)throw .*;$", code)
        if m:
            add(m.group(1) + ";", "no throw")
        m = re.match(r"^(\s*)return (\w.*);$", code)
        if m and m.group(2) not in ("true", "false", "0", "-1"):
            add(m.group(1) + "return {};", "return {}")
    return out


local = threading.local()
counter = [0]
lock = threading.Lock()


def worker_dir():
    if not hasattr(local, "d"):
        with lock:
            counter[0] += 1
            local.d = "/tmp/mut/w%d" % counter[0]
        shutil.rmtree(local.d, ignore_errors=True)
        os.makedirs(local.d)
        subprocess.run("git -C %s archive HEAD spoc apps spocpy examples | tar x -C %s/ --one-top-level=repo" % (REPO, local.d), shell=True, check=True)
        subprocess.run("git -C %s archive HEAD | tar x -C %s/ --one-top-level=verif --exclude=seeded" % (VERIF, local.d), shell=True, check=True)
        subprocess.run(["cp", VERIF + "/check.py", local.d + "/verif/check.py"])
    return local.d


def one(m, scale):
    d = worker_dir()
    p = os.path.join(d, "repo", m["file"])
    orig = open(os.path.join(REPO, m["file"])).read()
    lines = orig.split("\n")
    lines[m["line"] - 1] = m["new"]
    t0 = time.time()
    res = dict(m, result="survived", runs=[])
    try:
        with open(p, "w") as f:
            f.write("\n".join(lines))
        env = dict(os.environ, SPOC_REPO=d + "/repo", VERIF_ONLY="rel", VERIF_JOBS="1", VERIF_SCALE=str(scale), VERIF_SEED="1")
        for c in checks(m["file"]):
            try:
                r = subprocess.run(["python3", d + "/verif/check.py", c, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
            except subprocess.TimeoutExpired:
                res["result"] = "timeout " + c
                break
            res["runs"].append([c, r.returncode])
            if r.returncode == 2 and "cannot build" in r.stdout:
                res["result"] = "no build"
                break
            if r.returncode != 0:
                res["result"] = ("caught " if r.returncode == 1 else "error ") + c
                if r.returncode == 2:
                    res["text"] = r.stdout[-1500:]
                break
    finally:
        with open(p, "w") as f:
            f.write(orig)
        shutil.rmtree(d + "/verif/build", ignore_errors=True)
    res["s"] = round(time.time() - t0)
    return res


def main():
    a = sys.argv[1:]
    cmd = a.pop(0)
    out = a.pop(0) if cmd in ("run", "rerun") else None
    opt = {"-j": 7, "-n": 10 ** 9, "-s": 1, "-c": 0.3}
    fs = []
    while a:
        x = a.pop(0)
        if x in opt:
            opt[x] = type(opt[x])(a.pop(0))
        else:
            fs.append(x)
    ms = [m for f in files() if not fs or any(f.startswith(x) for x in fs) for m in mutants(f)]
    if cmd == "list":
        for m in ms:
            print("%s:%d [%s]\n  %s\n  %s" % (m["file"], m["line"], m["why"], m["old"].strip(), m["new"].strip()))
        print(len(ms))
        return
    done = set()
    if cmd == "rerun":
        old = [json.loads(l) for l in open(out)]
        ms = [{k: r[k] for k in ("file", "line", "old", "new", "why")} for r in old if r["result"] == "survived"]
        ms = [m for m in ms if open(os.path.join(REPO, m["file"])).read().split("\n")[m["line"] - 1] == m["old"]]
        out += ".again"
        opt["-c"] = 1
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["new"]))
    ms = [m for m in ms if (m["file"], m["line"], m["new"]) not in done]
    random.Random(opt["-s"]).shuffle(ms)
    ms = ms[:opt["-n"]]
    print(len(ms), "to do", flush=True)
    with cf.ThreadPoolExecutor(opt["-j"]) as ex, open(out, "a") as f:
        for r in (x.result() for x in cf.as_completed([ex.submit(one, m, opt["-c"]) for m in ms])):
            f.write(json.dumps(r) + "\n")
            f.flush()
            if not r["result"].startswith(("caught", "no build")):
                print("%s %s:%d [%s] %s\n  %s\n  %s" % (r["result"], r["file"], r["line"], r["why"], r["runs"], r["old"].strip(), r["new"].strip()), flush=True)


main()
