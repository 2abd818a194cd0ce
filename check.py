#!/usr/bin/env python3
"""Decide one property of the tree in /repo.

  check.py ID quick|thorough      run the property's check
  check.py replay FILE            run one saved case again
  check.py build                  compile everything once (setup: shows that the framework builds)

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself could not run.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SPOC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
from registry import CHECKS  # noqa: E402

os.environ.setdefault("OMP_WAIT_POLICY", "passive")
os.environ.setdefault("OMP_NUM_THREADS", "3")
os.environ["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:exitcode=77:report_signal_unsafe=0:history_size=3"
os.environ["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_abort=0:max_allocation_size_mb=8000"

REL = ["-O2", "-DNDEBUG"]
SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,signed-integer-overflow,shift-exponent,integer-divide-by-zero,bounds",
       "-fno-sanitize-recover=all"]
# OpenMP comes from harness/gomp_tsan.cpp here, whose synchronization the sanitizer sees
TSAN = ["-O1", "-g1", "-fsanitize=thread"]
COMMON = ["-std=c++20", "-fopenmp", "-w"]
JOBS = os.cpu_count() or 4


def tree_hash():
    """Everything a harness or tool is compiled from, in /repo's working tree."""
    h = hashlib.sha256()
    for top in ("spoc", "apps", "examples", "spocpy"):
        for d, dirs, files in sorted(os.walk(os.path.join(REPO, top))):
            dirs[:] = sorted(x for x in dirs if x not in ("build", "__pycache__"))
            for f in sorted(files):
                if f.endswith((".h", ".cpp", ".hpp", ".c", ".cc", ".py", ".inc", ".ipp")):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


class BuildError(Exception):
    pass


def compile_one(key_files, cmd, out_name, tree):
    """Compile into build/, keyed by the content of everything that goes in."""
    h = hashlib.sha256(tree.encode())
    for f in key_files:
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update("\0".join(cmd).encode())
    d = os.path.join(BUILD, h.hexdigest()[:24])
    out = os.path.join(d, out_name)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    try:
        o = os.path.join(tmp, out_name)
        r = subprocess.run(cmd + ["-o", o, "-lz"] if cmd[0] != "cp" else ["cp", cmd[1], o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=tmp)
        if r.returncode != 0:
            raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
        os.makedirs(d, exist_ok=True)
        os.replace(o, out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


GOMP_TSAN = os.path.join(VERIF, "harness", "gomp_tsan.cpp")
HARNESS_HEADERS = [os.path.join(VERIF, "harness", f) for f in sorted(os.listdir(os.path.join(VERIF, "harness")))]


def build_jobs(pid, spec, variants, tree):
    """(kind, variant, name, thunk) for everything the check runs."""
    jobs = []
    src = os.path.join(VERIF, "props", spec["src"])
    incs = ["-I", REPO, "-I", os.path.join(VERIF, "harness")] + (['-DSPOC_REPO="%s"' % REPO] if spec.get("sources") else []) + sum((["-I", os.path.join(REPO, "apps", a)] for a in spec.get("app_headers", [])), [])
    for v in variants:
        flags = {"rel": REL, "san": SAN, "tsan": TSAN}[v]
        cmd = ["g++"] + COMMON + flags + incs + [src] + ([GOMP_TSAN] if v == "tsan" else [])
        jobs.append(("harness", v, pid, lambda cmd=cmd: compile_one([src] + HARNESS_HEADERS, cmd, pid, tree)))
        for t in spec.get("tools", []):
            tv = "san" if v == "san" and t in spec.get("san_tools", spec.get("tools", [])) else "rel"
            tflags = REL if tv == "rel" else SAN
            if t.startswith("spoc_"):
                tsrc = os.path.join(REPO, "apps", t[5:], t[5:] + ".cpp")
            else:
                tsrc = os.path.join(REPO, "examples", t + ".cpp")
            tcmd = ["g++"] + COMMON + tflags + ["-I", REPO, tsrc]
            jobs.append(("tool", v, t, lambda tcmd=tcmd, t=t: compile_one([], tcmd, t, tree)))
    # the same tools with other contents of uninitialized variables
    for t in spec.get("tools", []) if spec.get("init_tools") else []:
        tsrc = os.path.join(REPO, "apps", t[5:], t[5:] + ".cpp") if t.startswith("spoc_") else os.path.join(REPO, "examples", t + ".cpp")
        for fill in ("zero", "pattern"):
            tcmd = ["g++"] + COMMON + ["-O1", "-DNDEBUG", "-ftrivial-auto-var-init=" + fill, "-I", REPO, tsrc]
            jobs.append(("tool", "rel-" + fill, t, lambda tcmd=tcmd, t=t: compile_one([], tcmd, t, tree)))
    if spec.get("preload"):
        psrc = os.path.join(VERIF, "harness", spec["preload"] + ".cpp")
        jobs.append(("tool", "rel", spec["preload"] + ".so", lambda: compile_one([psrc], ["g++", "-std=c++20", "-O1", "-w", "-fPIC", "-shared", psrc], spec["preload"] + ".so", "")))
    if spec.get("python"):
        def ext():
            inc = subprocess.run(["/usr/bin/python3", "-m", "pybind11", "--includes"], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
            cmd = ["g++", "-std=c++20", "-fopenmp", "-w", "-O1", "-DNDEBUG", "-fPIC", "-shared", "-fvisibility=hidden", "-DVERSION_INFO=0.1.1"] + inc + [
                "-I", REPO, os.path.join(REPO, "spocpy", "spocpy", "spocpy.cpp")]
            suffix = subprocess.run(["/usr/bin/python3-config", "--extension-suffix"], stdout=subprocess.PIPE, text=True).stdout.strip() or ".so"
            return compile_one([], cmd, "spocpy_cpp" + suffix, tree)
        jobs.append(("python", "rel", "spocpy_cpp", ext))
    return jobs


def known_findings():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) prop=(\S+) match=(\S+) (.*)", line.strip())
                if m:
                    out.append(m.groups())
    return out


def build_all(pid, spec, variants, work, tree):
    jobs = build_jobs(pid, spec, variants, tree)
    built = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [(j, ex.submit(j[3])) for j in jobs]
        for j, f in futs:
            try:
                built[j[:3]] = f.result()
            except BuildError as e:
                # OpenMP entry points that gomp_tsan.cpp does not have
                if j[1] == "tsan" and re.search(r"undefined reference to .(GOMP|omp)_", str(e)):
                    print("note: no ThreadSanitizer build: %s" % str(e)[-300:].replace("\n", " "))
                    continue
                raise
    if not work:
        return {}
    res = {}
    for (kind, v, name), path in built.items():
        d = os.path.join(work, "bin-" + v)
        os.makedirs(d, exist_ok=True)
        dst = os.path.join(d, name if kind != "python" else os.path.basename(path))
        if kind == "python":
            d = os.path.join(work, "py")
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(os.path.join(REPO, "spocpy", "spocpy"), os.path.join(d, "spocpy"), ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.cpp"))
            shutil.copy2(path, os.path.join(d, "spocpy", os.path.basename(path)))
            res["python"] = d
            continue
        # a copy in this run's own directory: nothing else can replace it while the check runs
        shutil.copy2(path, dst)
        if kind == "harness":
            res[v] = dst
    return res


def run(pid, tier):
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    thorough = tier == "thorough"
    variants = spec.get("variants", ["rel", "san"])
    if os.environ.get("VERIF_ONLY"):
        variants = [v for v in variants if v in os.environ["VERIF_ONLY"].split(",")]
    replay_dir = os.path.join(VERIF, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tree = tree_hash()
    work = tempfile.mkdtemp(prefix="spoc-%s-" % pid, dir="/tmp")
    os.chmod(work, 0o755)
    try:
        try:
            bins = build_all(pid, spec, variants, work, tree)
        except BuildError as e:
            print("cannot build the check against this tree:\n%s" % e)
            return 2
        t_build = time.time() - t0
        results, errors = [], []
        scale = float(spec.get("thorough_scale", 15)) if thorough else 1.0
        scale *= float(os.environ.get("VERIF_SCALE", "1"))
        budget = 1500 if thorough else 240
        split = spec.get("jobs", {variants[0]: JOBS} if len(variants) == 1 else {"rel": max(1, JOBS - 3), "san": 3} if len(variants) == 2 else {"rel": max(1, JOBS - 4), "san": 2, "tsan": 2})
        if os.environ.get("VERIF_JOBS"):
            split = {v: int(os.environ["VERIF_JOBS"]) for v in variants}
        variants = [v for v in variants if v in bins]
        procs = []
        for v in variants:
            out = os.path.join(work, v + ".json")
            sc = scale * {"rel": 1.0, "san": spec.get("san_fraction", 0.25), "tsan": spec.get("tsan_fraction", 0.05)}[v]
            cmd = [bins[v], "--property=" + pid, "--variant=" + v, "--bin=" + os.path.join(work, "bin-" + v),
                   "--scratch=" + os.path.join(work, "s-" + v), "--out=" + out, "--seed=%d" % seed, "--scale=%g" % sc,
                   "--budget=%g" % budget, "--jobs=%d" % split[v], "--replay-dir=" + replay_dir] + (["--thorough"] if thorough else [])
            env = dict(os.environ)
            if "python" in bins:
                env["PYTHONPATH"] = bins["python"]
                env["PYTHONDONTWRITEBYTECODE"] = "1"
            env["PBT_CORPUS"] = os.path.join(VERIF, "corpus")
            procs.append((v, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)))
        for v, out, p in procs:
            text, _ = p.communicate()
            if p.returncode not in (0, 1) or not os.path.exists(out):
                errors.append("%s harness ended with %s: %s" % (v, p.returncode, text[-2000:]))
                continue
            with open(out) as f:
                results.append(json.load(f))
        fuzz_info = None
        if thorough and spec.get("fuzz"):
            fuzz_info = fuzz(pid, spec, seed, work, replay_dir, tree, results)
        return report(pid, tier, seed, spec, results, errors, t0, t_build, fuzz_info)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def fuzz(pid, spec, seed, work, replay_dir, tree, results):
    """Coverage-guided search over the same properties (clang's libFuzzer, no OpenMP)."""
    src = os.path.join(VERIF, "props", spec["src"])
    cmd = ["clang++", "-std=c++20", "-w", "-O1", "-g1", "-DPBT_LIBFUZZER", "-fsanitize=fuzzer,address,signed-integer-overflow,bounds",
           "-fno-sanitize-recover=all", "-I", REPO, "-I", os.path.join(VERIF, "harness")] + sum((["-I", os.path.join(REPO, "apps", a)] for a in spec.get("app_headers", [])), []) + [src]
    try:
        exe = compile_one([src] + HARNESS_HEADERS, cmd, pid + "-fuzz", tree)
    except BuildError as e:
        return {"skipped": str(e)[-500:]}
    info = {}
    procs = []
    per = max(1, JOBS // max(1, len(spec["fuzz"])))
    for prop in spec["fuzz"]:
        for k in range(per):
            d = os.path.join(work, "fz-%s-%d" % (prop, k))
            os.makedirs(os.path.join(d, "corpus"))
            rp = os.path.join(replay_dir, "%s-%s-fuzz%d.replay" % (pid, prop, k))
            if os.path.exists(rp):
                os.unlink(rp)
            env = dict(os.environ, PBT_PROP=prop, PBT_PROPERTY=pid, PBT_REPLAY_OUT=rp)
            env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"
            runs = int(spec.get("fuzz_runs", 400000))
            procs.append((prop, k, d, rp, subprocess.Popen(
                [exe, "-seed=%d" % (seed * 100 + k + 1), "-runs=%d" % runs, "-max_total_time=420", "-max_len=6000", "-len_control=20", "-print_final_stats=1",
                 "-rss_limit_mb=3000", "-malloc_limit_mb=0", "-timeout=60", "-artifact_prefix=" + d + "/", "corpus"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
    for prop, k, d, rp, p in procs:
        text, _ = p.communicate()
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", text)
        n = int(m.group(1)) if m else 0
        cov = re.findall(r"cov: (\d+)", text)
        e = info.setdefault(prop, {"executions": 0, "edges": 0, "campaigns": 0})
        e["executions"] += n
        e["campaigns"] += 1
        e["edges"] = max(e["edges"], int(cov[-1]) if cov else 0)
        if p.returncode != 0:
            if os.path.exists(rp):
                results.append({"variant": "fuzz", "props": [{"name": prop, "rule": "coverage-guided search over the same cases", "evaluations": n, "discarded": 0,
                                "distinct_nontrivial": 0, "labels": {}, "samples": [], "stopped_early": False, "wall_s": 0,
                                "violation": "found by libFuzzer: " + text[-1500:], "replay": rp}]})
            else:
                e["ended"] = text[-800:]
    return info


def report(pid, tier, seed, spec, results, errors, t0, t_build, fuzz_info):
    known = [k for k in known_findings() if k[0] == pid]
    violations, lines = [], []
    ev = nt = 0
    samples, rules, labels, per_prop, unreproduced = [], [], {}, [], []
    for r in results:
        for p in r["props"]:
            ev += p["evaluations"]
            nt += p["distinct_nontrivial"]
            if p["rule"] not in rules:
                rules.append(p["name"] + ": " + p["rule"]) if (p["name"] + ": " + p["rule"]) not in rules else None
            for k, n in p["labels"].items():
                labels[p["name"] + "/" + k] = labels.get(p["name"] + "/" + k, 0) + n
            samples += [{"prop": p["name"], "variant": r["variant"], "case": s} for s in p["samples"][:2]]
            per_prop.append({"prop": p["name"], "variant": r["variant"], "evaluations": p["evaluations"], "discarded": p["discarded"],
                             "distinct_nontrivial": p["distinct_nontrivial"], "wall_s": round(p["wall_s"], 2), "stopped_early": p["stopped_early"]})
            if "violation" in p:
                hit = [k for k in known if k[1] == p["name"] and re.search(k[2], p["violation"])]
                if hit:
                    lines.append("KNOWN-FINDING: property=%s %s" % (pid, hit[0][3]))
                else:
                    violations.append(p)
            if "unreproduced" in p:
                unreproduced.append({"prop": p["name"], "variant": r["variant"], "message": p["unreproduced"][:1500]})
    for e in errors:
        print("ERROR: " + e)
    cov = {"evaluations": ev, "distinct_nontrivial": nt,
           "rule": "A case is a recorded sequence of random choices; distinct by that sequence. Non-trivial, per part: " + "; ".join(rules),
           "samples": samples[:12], "classes": labels, "parts": per_prop, "build_s": round(t_build, 1)}
    if fuzz_info:
        cov["coverage_guided"] = fuzz_info
    if unreproduced:
        cov["unreproduced"] = unreproduced
    evidence = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
                "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    for line in lines:
        print(line)
    for u in unreproduced:
        print("note: a failure of %s (%s) did not reproduce on replay and is not reported: %s" % (u["prop"], u["variant"], u["message"][:300]))
    for v in violations:
        print("%s: %s" % (v["name"], v["violation"][:3000]))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1f s (build %.1f s)" % (pid, tier, seed, ev, nt, len(violations), time.time() - t0, t_build))
    if violations:
        return 1
    if errors:
        return 2
    return 0


def replay(fn):
    fn = os.path.abspath(fn)
    info = {}
    with open(fn) as f:
        for line in f:
            w = line.split()
            if w and w[0] in ("property", "prop", "variant"):
                info[w[0]] = w[1]
    pid, v = info["property"], info["variant"]
    if v == "fuzz":
        v = "san"
    spec = CHECKS[pid]
    work = tempfile.mkdtemp(prefix="spoc-replay-", dir="/tmp")
    try:
        bins = build_all(pid, spec, [v], work, tree_hash())
        env = dict(os.environ, PBT_CORPUS=os.path.join(VERIF, "corpus"))
        if "python" in bins:
            env["PYTHONPATH"] = bins["python"]
        r = subprocess.run([bins[v], "--property=" + pid, "--variant=" + v, "--bin=" + os.path.join(work, "bin-" + v),
                            "--scratch=" + os.path.join(work, "s"), "--replay=" + fn], env=env)
        if r.returncode == 1:
            print("VIOLATION property=%s replay=%s" % (pid, fn))
        return r.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == "replay":
        return replay(a[1])
    if len(a) == 1 and a[0] == "build":
        tree = tree_hash()
        for pid in sorted(CHECKS):
            try:
                build_all(pid, CHECKS[pid], CHECKS[pid].get("variants", ["rel", "san"]), None, tree)
            except BuildError as e:
                print("%s: %s" % (pid, e))
                return 2
        return 0
    if len(a) == 2 and a[0] in CHECKS and a[1] in ("quick", "thorough"):
        return run(a[0], a[1])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
