#!/usr/bin/env python3
"""plant.py ID... [--all] [--checks C01,C02]: confirm planted changes in scratch copies of /repo.

For each: the patch applies, the library builds, the stable tests pass, the
demonstration passes without it and fails with it, and which checks see it
(its own property, or all of them)."""
import sys, os, json, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, LC_ALL="C.UTF-8", CC="gcc", CXX="g++")
def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **dict(dict(env=ENV), **kw))
def build_test(tree):
    b = tree + "/_build"
    p = run(["cmake", "-S", tree, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_PROJECT_u5e_INCLUDE=/opt/vp/cmake/apt_googletest.cmake"])
    if p.returncode: return "cmake: " + p.stdout[-800:]
    p = run(["ninja", "-C", b])
    if p.returncode: return "build: " + p.stdout[-1500:]
    os.makedirs(b + "/r", exist_ok=True)
    run(["python3", "/opt/vp/run_cases.py", b, b + "/r/cases.txt"])
    run(["python3", "/opt/vp/results.py", b + "/r/out.json", "lines:" + b + "/r/cases.txt"])
    r = json.load(open(b + "/r/out.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("passed") or base.get("stable") or base
    miss = [t for t in want if t not in r["passed"]]
    return "tests: %s" % miss[:5] if miss else ""
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    alls = "--all" in sys.argv
    checks = None
    for a in sys.argv[1:]:
        if a.startswith("--checks="): checks = a[9:].split(",")
    if not args: args = sorted(os.listdir(V + "/seeded"))
    for i in args:
        d = "%s/seeded/%s" % (V, i); meta = json.load(open(d + "/meta.json"))
        top = tempfile.mkdtemp(prefix="plant."); tree = top + "/repo"
        try:
            run(["git", "clone", "-q", "/repo", tree])
            demo = top + "/demo"; shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
            line = [i, meta["property"]]
            clean = run(["bash", demo + "/demo.sh"], cwd=tree, timeout=300)
            line.append("demo-clean=%d" % clean.returncode)
            p = run(["git", "apply", d + "/patch.diff"], cwd=tree)
            if p.returncode: print(*line, "PATCH DOES NOT APPLY", p.stdout); continue
            e = build_test(tree)
            line.append("tests=%s" % (e or "ok"))
            bad = run(["bash", demo + "/demo.sh"], cwd=tree, timeout=300)
            line.append("demo-patched=%d" % bad.returncode)
            if clean.returncode: line.append(clean.stdout[-1500:])
            cs = checks or (["C%02d" % k for k in range(1, 60) if any(c["property"] == "C%02d" % k for c in json.load(open(V + "/MANIFEST.json"))["checks"])] if alls else [meta["property"]])
            for c in cs:
                p = run(["python3", V + "/check.py", c], env=dict(ENV, VERIF_REPO=tree, VERIF_SEED="1", VERIF_TIER="quick"), cwd=V)
                mark = {0: "quiet", 1: "CAUGHT"}.get(p.returncode, "undecided")
                line.append("%s=%s" % (c, mark))
                if len(cs) == 1 or p.returncode > 1: line.append("\n    " + "\n    ".join(p.stdout.strip().splitlines()[:3])[:700])
            print(*line, flush=True)
        finally: shutil.rmtree(top)
main()
