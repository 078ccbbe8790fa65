#!/usr/bin/env python3
"""mutate.py OUT [--list] [--only FILE-REGEX] [--every N]: small mechanical changes to the library, and which checks see each.

A development aid, not a check: every change is compiled into the plain
configuration of every driver, which runs one sixteenth of its quick workload.
What no driver sees is then looked at with the whole checks and by eye."""
import sys, os, re, json, subprocess, shutil, tempfile, random, threading, queue, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
sys.path.insert(0, V); sys.dont_write_bytecode = True
from plan import PLAN
FILES = sorted(glob.glob(R + "/include/u5e/*.hpp") + glob.glob(R + "/src/u5e/props/*.cpp"))
REPL = [(r"==", ["!="]), (r"!=", ["=="]), (r"<=", ["<", ">"]), (r">=", [">", "<"]), (r"(?<![<\-=])>(?![>=])", [">=", "<"]), (r"(?<![<])<(?![<=])", ["<=", ">"]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
        (r"\+\+", ["--", ""]), (r"--", ["++", ""]), (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"<<", [">>"]), (r">>", ["<<"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
        (r"\b0b[01]+\b", None), (r"\b0x[0-9A-Fa-f]+\b", None), (r"(?<![\w.])\d+(?![\w.])", None), (r"(?<=[^&])&(?=[^&=])(?=\s)", ["|"]), (r"\+=", ["-=", "="]), (r"-=", ["+="])]
def code_lines(s):
    out = []; c = False
    for n, l in enumerate(s.split("\n")):
        t = l.strip(); start = c
        if "/*" in l: c = True
        if "*/" in l: c = False; out.append((n, None)); continue
        if c or start or t.startswith("//") or t.startswith("#") or not t: continue
        out.append((n, l.split("//")[0]))
    return [x for x in out if x[1]]
def mutants():
    for f in FILES:
        s = open(f).read(); lines = s.split("\n")
        for n, l in code_lines(s):
            seen = set()
            def emit(new, what):
                if new != l and new not in seen: seen.add(new); return (f, n, new + lines[n][len(l):], what)
            for rx, reps in REPL:
                for m in re.finditer(rx, l):
                    if reps is None:
                        v = int(m.group(), 0); rs = [str(v + 1), str(v - 1) if v else "2"]
                    else: rs = reps
                    for x in rs:
                        e = emit(l[:m.start()] + x + l[m.end():], "%s -> %s" % (m.group(), x))
                        if e: yield e
            m = re.match(r"^(\s*)(.*;)\s*$", l)
            if m and not re.match(r"(typedef|using|return|static|class|struct|template|public|private|const_|[\w:<>]+ [\w]+( = .*)?;|\};)", m.group(2)):
                e = emit(m.group(1) + ";", "deleted");
                if e: yield e
            m = re.search(r"\b(if|while) \((.*)\) \{", l)
            if m:
                for x in ("true", "false") if m.group(1) == "if" else ("false",):
                    e = emit(l[:m.start(2)] + x + l[m.end(2):], m.group(1) + " -> " + x)
                    if e: yield e
            m = re.match(r"^(\s*)return (true|false|.*);", l)
            if m and m.group(2) == "*this": pass
def sh(cmd, t): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, env=dict(os.environ, VERIF_DATA=V + "/data", LC_ALL="C"))
FL = ["g++", "-std=gnu++1y", "-O1", "-w", "-DNDEBUG"]
PROPS = [p for p in PLAN if p not in ("C27", "C19")]
FIRST = "--first" in sys.argv
ORDER = {"utf8_iterator": "C02 C03 C04 C07", "utf8_bounds": "C05", "utf8.hpp": "C07 C04 C10", "utf8_util": "C04 C02 C05", "grapheme": "C08 C09 C26 C22", "encodedstring": "C07 C22 C09 C16", "composition": "C23 C11 C17", "hangul": "C23",
         "order": "C23 C10", "decomposition": "C10 C12 C23 C17", "props": "C17 C10", "normalization_form_c": "C11", "normalization_form_d": "C10", "normalization_form_kc": "C13", "normalization_form_kd": "C12", "codepoint.hpp": "C25", "filter": "C15"}
def evaluate(mut, work, base, props=PROPS):
    f, n, new, what = mut;
    if FIRST:
        o = [p for k, v in ORDER.items() if k in f[len(R):] for p in v.split()]; props = list(dict.fromkeys(o + props))
    d = tempfile.mkdtemp(dir=work); res = {}
    try:
        shutil.copytree(R + "/include", d + "/include"); shutil.copytree(R + "/src", d + "/src")
        p = f.replace(R, d); s = open(p).read().split("\n"); s[n] = new; open(p, "w").write("\n".join(s))
        header = f.endswith(".hpp"); lib = []
        for c in glob.glob(d + "/src/u5e/props/*.cpp") + glob.glob(d + "/src/u5e/*.cpp"):
            o = base + "/" + os.path.basename(c) + ".o"
            if c == p or (header and os.path.basename(f) in open(c).read()):
                o = d + "/" + os.path.basename(c) + ".o"
                if sh(FL + ["-I", d + "/include", "-c", c, "-o", o], 200).returncode: return {"*": "no-compile"}
            lib.append(o)
        for pr in props:
            src = PLAN[pr]["src"][0]; o = base + "/" + pr + ".o"
            if header:
                o = d + "/drv.o"
                if sh(FL + ["-DVERIF_MAIN"] + PLAN[pr].get("defs", []) + ["-I", d + "/include", "-I", V + "/harness", "-c", V + "/harness/" + src, "-o", o], 300).returncode: 
                    res[pr] = "nc"
                    if all(x == "nc" for x in res.values()) and len(res) >= 2: return {"*": "no-compile"}
                    continue
            if sh(["g++", o] + lib + ["-o", d + "/drv", "-lpthread"], 100).returncode: res[pr] = "nl"; continue
            os.makedirs(d + "/out", exist_ok=True)
            try: rc = sh([d + "/drv", "--seed", "1", "--tier", "quick", "--shard", "3", "--nshards", "16", "--out", d + "/out"], 120).returncode
            except subprocess.TimeoutExpired: rc = "slow"
            if rc: res[pr] = rc
            if rc and FIRST: return res
        return res
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    ms = list(mutants()); only = [a[7:] for a in sys.argv if a.startswith("--only=")]; every = [int(a[8:]) for a in sys.argv if a.startswith("--every=")]
    if only: ms = [m for m in ms if re.search(only[0], m[0])]
    random.Random(1).shuffle(ms)
    if every: ms = ms[:len(ms) // every[0]]
    if "--list" in sys.argv: print(len(ms)); return
    work = tempfile.mkdtemp(prefix="mut."); base = work + "/base"; os.makedirs(base); q = queue.Queue(); lock = threading.Lock()
    jobs = [(FL + ["-I", R + "/include", "-c", c, "-o", base + "/" + os.path.basename(c) + ".o"]) for c in glob.glob(R + "/src/u5e/props/*.cpp") + glob.glob(R + "/src/u5e/*.cpp")]
    jobs += [FL + ["-DVERIF_MAIN"] + PLAN[pr].get("defs", []) + ["-I", R + "/include", "-I", V + "/harness", "-c", V + "/harness/" + PLAN[pr]["src"][0], "-o", base + "/" + pr + ".o"] for pr in PROPS]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda j: sh(j, 300), jobs))
    out = open(sys.argv[1], "a"); done = set()
    for l in open(sys.argv[1]):
        j = json.loads(l); done.add((j["file"], j["line"], j["new"]))
    def one(m):
        if (m[0], m[1], m[2]) in done: return
        try: r = evaluate(m, work, base)
        except Exception as e: r = {"*": repr(e)}
        with lock: out.write(json.dumps({"file": m[0], "line": m[1], "new": m[2], "what": m[3], "seen": r}) + "\n"); out.flush()
    try:
        with ThreadPoolExecutor(8) as ex: list(ex.map(one, ms))
    finally: shutil.rmtree(work, ignore_errors=True)
main()
