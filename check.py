#!/usr/bin/env python3
"""check.py ID            decide one property on /repo's current tree
   check.py --replay FILE  re-run the recorded case

Builds the property's driver from /repo's sources in each configuration, runs
it sharded over the cores, merges what the monitors saw into
evidence/ID.json. Exit 0 held / 1 VIOLATION / 2 could not decide."""
import os, sys, json, subprocess, shutil, tempfile, time, glob, re, struct
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
CORES = min(8, os.cpu_count() or 4)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True
from plan import PLAN, CONFIGS

ENV = dict(os.environ, LC_ALL="C", VERIF_DATA=os.path.join(HERE, "data"),
           ASAN_OPTIONS="abort_on_error=0:exitcode=99:detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=0:strict_string_checks=0:handle_abort=1:symbolize=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
           TSAN_OPTIONS="halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4")
for k in ("GTEST_FILTER",): ENV.pop(k, None)


class Undecided(Exception):
    pass


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=ENV, **kw)


def regenerate(work, k):
    """A copy of the library whose tables its own generators wrote for database k; problems as text."""
    import databases
    d = os.path.join(work, "tree%d" % k); props = os.path.join(d, "src", "u5e", "props")
    for x in ("include", "src"): shutil.copytree(os.path.join(REPO, x), os.path.join(d, x))
    for f in databases.FILES:
        if not os.path.exists(os.path.join(props, f)): raise Undecided("no %s among the generators" % f)
    if k: databases.make(os.path.join(HERE, "data"), props, SEED * 1000 + k)    # 0: the files that come with the library
    tables = glob.glob(os.path.join(props, "*_data.hpp"))
    for t in tables: os.utime(t, (1, 1))
    gens = sorted(glob.glob(os.path.join(props, "*.pl")) + glob.glob(os.path.join(props, "*.sh")))
    if not gens: raise Undecided("no table generators")
    bad = []
    for g in gens:
        p = subprocess.run(["perl" if g.endswith(".pl") else "sh", os.path.basename(g)], cwd=props, env=dict(ENV, PERL5LIB=props), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
        if p.returncode: bad.append("%s ends with %d: %s" % (os.path.basename(g), p.returncode, p.stdout[-300:]))
    for f in databases.FILES:
        os.makedirs(os.path.join(d, "data"), exist_ok=True); shutil.copy(os.path.join(props, f), os.path.join(d, "data", f))
    CONFIGS["db%d" % k] = dict(CONFIGS["plain"], data=os.path.join(d, "data") if k else ENV["VERIF_DATA"], tree=d, shards=1, problems=bad, generators=len(gens))


def build_generated(prop, configs, work):
    with ThreadPoolExecutor(CORES) as ex: list(ex.map(lambda c: regenerate(work, int(c[2:])), configs))
    drv = os.path.join(work, "driver.o"); bins = {}; c = CONFIGS["plain"]
    p = sh([c["cxx"]] + c["flags"] + ["-w", "-DVERIF_MAIN", "-I", os.path.join(REPO, "include"), "-I", os.path.join(HERE, "harness"), "-c", os.path.join(HERE, "harness", PLAN[prop]["src"][0]), "-o", drv], 600)
    if p.returncode: raise Undecided("does not compile: " + p.stdout[-3000:])
    def one(cfg):
        d = CONFIGS[cfg]["tree"]; b = os.path.join(d, "driver")
        p = sh([c["cxx"]] + ["-std=gnu++1y", "-O1", "-w", "-I", os.path.join(d, "include"), drv] + sorted(glob.glob(os.path.join(d, "src", "**", "*.cpp"), recursive=True)) + ["-o", b, "-lpthread"], 600)
        if p.returncode: CONFIGS[cfg]["problems"].append("the library with the generated tables does not build: " + p.stdout[-600:])
        else: bins[cfg] = b
    with ThreadPoolExecutor(CORES) as ex: list(ex.map(one, configs))
    return bins


def build(prop, configs, work):
    if PLAN[prop].get("headers_alone"): headers_in_any_order(prop, configs, work)
    try: return build_drivers(prop, configs, work)
    except Undecided:
        if PLAN[prop].get("headers_alone") and CONFIGS[configs[0]].get("problems"): return {}
        raise


def headers_in_any_order(prop, configs, work):
    """Every header included first and alone, and after all the others, with a use of what it declares; a use that one order allows all of them must."""
    heads = []
    for l in open(os.path.join(HERE, "harness", PLAN[prop]["headers_alone"])):
        if l.startswith("#") or "|" not in l: continue
        h, use = [x.strip() for x in l.split("|", 1)]; more = ""
        if use.startswith("#"): more, use = use[1:].split("#", 1); more = "#" + more + "\n"
        if os.path.exists(os.path.join(REPO, "include", "u5e", h)): heads.append((h, "#include <u5e/%s>\n" % h, more, "namespace use%d { %s }\n" % (len(heads), use)))
    def compiles(cc, text):
        d = tempfile.mkdtemp(dir=work); s = os.path.join(d, "alone.cpp")
        with open(s, "w") as f: f.write(text)
        p = sh(cc + ["-w", "-I", os.path.join(REPO, "include"), "-fsyntax-only", s], 300); shutil.rmtree(d, ignore_errors=True)
        return "" if not p.returncode else next((x for x in p.stdout.splitlines() if "error" in x), p.stdout[-300:])
    std = "#include <bits/stdc++.h>\n#include <experimental/string_view>\n"          # what the standard library declares is there: only the library's own headers are in question
    ccs = [["g++", "-std=c++14"], ["clang++", "-std=c++20"]]
    orders = [("after all the others", std + "".join(x[1] + x[2] for x in heads)), ("after all the others in the opposite order", std + "".join(x[1] + x[2] for x in heads[::-1]))]
    with ThreadPoolExecutor(CORES) as ex:
        whole = dict(zip([(o, cc[0]) for o in range(2) for cc in ccs], ex.map(lambda j: compiles(j[1], orders[j[0]][1] + "".join(x[3] for x in heads)), [(o, cc) for o in range(2) for cc in ccs])))
        def each(j):
            cc, (h, inc, more, use) = j; res = [("first and alone", compiles(cc, std + inc + inc + more + use))]
            for o in range(2): res.append((orders[o][0], whole[o, cc[0]] and compiles(cc, orders[o][1] + use)))
            if not res[0][1]: return h, cc, [r for r in res if r[1]]
            return h, cc, [r for r in res if r[1]] if not all(r[1] for r in res) else []          # a use refused in every order is not about the order
        for h, cc, bad in ex.map(each, [(cc, x) for x in heads for cc in ccs]):
            for how, text in bad[:1]: CONFIGS[configs[0]].setdefault("problems", []).append("a program that includes <u5e/%s> %s does not compile (%s), but does otherwise: %s" % (h, how, " ".join(cc), text))
    PLAN[prop]["rule"] += "; %d headers included in three orders" % len(heads)


def build_drivers(prop, configs, work):
    """The driver in every configuration; over plain strings if the library needs what monitored storage does not offer."""
    if PLAN[prop].get("generated"): return build_generated(prop, configs, work)
    try: return build_all(prop, configs, work)
    except Undecided:
        if PLAN[prop].get("needs_monitor"): raise
        PLAN[prop]["defs"] = PLAN[prop].get("defs", []) + ["-DVERIF_NO_MON"]; PLAN[prop]["must_see"] = [k for k in PLAN[prop]["must_see"] if not k.startswith("monitored.") and k not in PLAN[prop].get("full_only", [])]
        PLAN[prop]["rule"] += "; the monitored storage (or string types unlike std::basic_string) did not compile with this library: plain strings in their place"
        for cfg in configs: shutil.rmtree(os.path.join(work, cfg), ignore_errors=True)
        try: return build_all(prop, configs, work)
        except Undecided:
            if not PLAN[prop].get("must_build"): raise
            bad = refused(PLAN[prop]["must_build"])
            if not bad or refused("c35base.cpp"): raise          # whatever else is wrong with this tree
            CONFIGS[configs[0]].setdefault("problems", []).append("ordinary uses no longer compile: " + bad); return {}


def refused(src):
    """why a program of ordinary uses does not compile, if it doesn't"""
    p = sh([CONFIGS["plain"]["cxx"]] + CONFIGS["plain"]["flags"] + ["-w", "-fsyntax-only", "-I", os.path.join(REPO, "include"), os.path.join(HERE, "harness", src)], 300)
    return next((l for l in p.stdout.splitlines() if "error" in l), p.stdout[-300:] or "ended with %d" % p.returncode) if p.returncode else ""


def build_all(prop, configs, work):
    libsrc = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    if not libsrc:
        raise Undecided("no library sources in " + REPO)
    jobs = []
    for cfg in configs:
        c = CONFIGS[cfg]
        d = os.path.join(work, cfg); os.makedirs(d)
        objs = []
        for i, s in enumerate(libsrc):
            o = os.path.join(d, "lib%d.o" % i); objs.append(o)
            jobs.append(([c["cxx"]] + c["flags"] + ["-w", "-I", os.path.join(REPO, "include"), "-c", s, "-o", o], s))
        for src in PLAN[prop]["src"]:
            o = os.path.join(d, src + ".o"); objs.append(o)
            jobs.append(([c["cxx"]] + c["flags"] + ["-w", "-DVERIF_MAIN"] + PLAN[prop].get("defs", []) + [ "-I", os.path.join(REPO, "include"), "-I", os.path.join(HERE, "harness"),
                          "-c", os.path.join(HERE, "harness", src), "-o", o], src))
        c["_objs_" + prop] = objs
    def one(j):
        p = sh(j[0], 600)
        return p.returncode, j, p.stdout
    if PLAN[prop].get("examples"):          # the example programs as well, each linked with the library
        for cfg in configs:
            d = os.path.join(work, cfg, "examples"); os.makedirs(d)
            for s in sorted(glob.glob(os.path.join(REPO, "examples", "*.cpp"))): jobs.append(([CONFIGS[cfg]["cxx"]] + CONFIGS[cfg]["flags"] + ["-w", "-I", os.path.join(REPO, "include"), "-c", s, "-o", os.path.join(d, os.path.basename(s)[:-4] + ".o")], s))
    jobs.sort(key=lambda j: 0 if j[1].startswith("c") else 1)
    with ThreadPoolExecutor(CORES) as ex:
        dropped = set()
        for rc, j, out in ex.map(one, jobs):
            cfg = os.path.relpath(j[0][-1], work).split(os.sep)[0]
            if rc and not CONFIGS[cfg].get("optional"): raise Undecided("does not compile: %s\n%s" % (j[1], out[-3000:]))
            if rc: dropped.add(cfg)
    if (dropped or PLAN[prop].get("ordinary_flags")) and PLAN[prop].get("ordinary_uses"):        # what builds nowhere but here may be the driver's own doing; ordinary uses may not
        def builds(flags):
            d = tempfile.mkdtemp(dir=work); bad = ""
            for i, s in enumerate(libsrc + [os.path.join(HERE, "harness", PLAN[prop]["ordinary_uses"])] + sorted(glob.glob(os.path.join(REPO, "examples", "*.cpp")))):
                p = sh(flags + ["-w", "-I", os.path.join(REPO, "include"), "-c", s, "-o", os.path.join(d, "%d.o" % i)], 300)
                if p.returncode: bad = bad or (os.path.basename(s) + ": " + next((l for l in p.stdout.splitlines() if "error" in l), p.stdout[-300:]))
            shutil.rmtree(d, ignore_errors=True); return bad
        if not builds([CONFIGS["plain"]["cxx"]] + CONFIGS["plain"]["flags"]):
            todo = sorted(dropped)
            with ThreadPoolExecutor(CORES) as ex:
                names = sorted(PLAN[prop].get("ordinary_flags", {})); flags = [[PLAN[prop]["ordinary_flags"][n][0]] + PLAN[prop]["ordinary_flags"][n][1].split() for n in names]
                for n, f, bad in zip(names, flags, ex.map(builds, flags)):
                    if bad: CONFIGS[configs[0]].setdefault("problems", []).append("does not build %s (%s), but does otherwise: %s" % (n, " ".join(f), bad))
            with ThreadPoolExecutor(CORES) as ex:
                for cfg, bad in zip(todo, ex.map(lambda c: builds([CONFIGS[c]["cxx"]] + CONFIGS[c]["flags"]), todo)):
                    if bad: CONFIGS[cfg].setdefault("problems", []).append("does not build with %s %s, but does otherwise: %s" % (CONFIGS[cfg]["cxx"], " ".join(CONFIGS[cfg]["flags"]), bad))
    if dropped: PLAN[prop]["rule"] += "; not compiled with this library and left out: " + ", ".join(sorted(dropped))
    bins = {}
    def link_driver(cfg):
        c = CONFIGS[cfg]; b = os.path.join(work, cfg, "driver")
        if c.get("shared"):                  # the library in an object of its own
            so = os.path.join(work, cfg, "libu5e.so"); o = c["_objs_" + prop]; lib = [x for x in o if os.path.basename(x).startswith("lib")]
            p = sh([c["cxx"]] + c["flags"] + ["-shared"] + lib + ["-o", so], 300)
            return cfg, b, p if p.returncode else sh([c["cxx"]] + c["flags"] + [x for x in o if x not in lib] + [so, "-Wl,-rpath," + os.path.dirname(so), "-o", b, "-lpthread"], 300)
        return cfg, b, sh([c["cxx"]] + c["flags"] + (c["_objs_" + prop][::-1] if c.get("driver_first") else c["_objs_" + prop]) + ["-o", b, "-lpthread"], 300)
    with ThreadPoolExecutor(CORES) as ex: linked = list(ex.map(link_driver, [c for c in configs if c not in dropped]))
    for cfg, b, p in linked:
        c = CONFIGS[cfg]
        if p.returncode:
            twice = re.search(r"multiple definition of `(u5e::[^']*)'", p.stdout)
            if twice and len(PLAN[prop]["src"]) > 1: c.setdefault("problems", []).append("two translation units cannot be linked: %s is defined in both" % twice.group(1)); continue
            lacks = re.search(r"undefined (?:reference to|symbol:?) [`']?(u5e::[^'\n]*)", p.stdout)
            if lacks and c.get("optional") and not dict((x[0], x[2].returncode) for x in linked).get("plain"): c.setdefault("problems", []).append("a program cannot be linked with %s %s, but can otherwise: %s is not defined" % (c["cxx"], " ".join(c["flags"]), lacks.group(1))); continue
            raise Undecided("does not link (%s)\n%s" % (cfg, p.stdout[-2000:]))
        bins[cfg] = b
        if PLAN[prop].get("examples"):
            lib = [o for o in c["_objs_" + prop] if os.path.basename(o).startswith("lib")]; d = os.path.join(work, cfg, "examples")
            def link(o): return sh([c["cxx"]] + c["flags"] + [o] + lib + ["-o", o[:-2]], 300)
            with ThreadPoolExecutor(CORES) as ex:
                for p in ex.map(link, sorted(glob.glob(os.path.join(d, "*.o")))):
                    if p.returncode: raise Undecided("an example does not link: " + p.stdout[-2000:])
    return bins


GRACE = 45            # once a violation has been seen, what is still running gets this many seconds
WATCH = {"on": False, "since": None, "known": set()}


def seen(out):
    """whether a violation that is not a known finding was recorded a while ago"""
    if not WATCH["on"]: return False
    if not WATCH["since"]:
        for f in glob.glob(os.path.join(out, "*.vio")):
            with open(f, errors="replace") as h:
                if any(line.count("\t") >= 3 and line.split("\t")[0] not in WATCH["known"] for line in h): WATCH["since"] = time.time()
    return WATCH["since"] and time.time() - WATCH["since"] > GRACE


def attend(cmd, f, env, timeout, out):
    p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=out, start_new_session=True); end = time.time() + timeout; rc = None
    try:
        while rc is None:
            try: p.wait(0.5)
            except subprocess.TimeoutExpired: pass
            rc = p.poll()
            if rc is None and time.time() > end: return "timeout"
            if rc is None and seen(out): return "stopped"
        return rc
    finally:
        if rc is None:
            try: os.killpg(p.pid, 9)
            except ProcessLookupError: pass
            p.wait()


def run_shard(cfg, binary, shard, n, out, seed, tier, extra=(), timeout=800):
    cmd = CONFIGS[cfg].get("wrap", []) + [binary, "--seed", str(seed), "--tier", tier, "--shard", str(shard), "--nshards", str(n),
           "--config", cfg, "--out", out] + list(extra)
    log = os.path.join(out, "%s.%d.log" % (cfg, shard))
    with open(log, "w") as f:
        rc = attend(cmd, f, dict(ENV, VERIF_DATA=CONFIGS[cfg].get("data", ENV["VERIF_DATA"]), VERIF_EXAMPLES=os.path.join(out, cfg, "examples")), timeout, out)
    if WATCH["on"] and not WATCH["since"] and isinstance(rc, int) and rc not in (0, 1):
        c = classify(rc, log)
        if c and c[0] != "hang" and c[0] not in WATCH["known"]: WATCH["since"] = time.time()
    return cfg, shard, rc, log


def progress(out, cfg, shard):
    try:
        with open(os.path.join(out, "%s.%d.progress" % (cfg, shard)), "rb") as f: b = f.read()
        g = b[:64].split(b"\0")[0].decode("ascii", "replace")
        idx = struct.unpack_from("<Q", b, 64)[0]
        note = b[80:240].split(b"\0")[0].decode("ascii", "replace")
        return g, idx, note
    except Exception:
        return "?", 0, ""


SAN = re.compile(r"(ERROR: AddressSanitizer: ([\w-]+)|runtime error: (.*)|ERROR: LeakSanitizer: (.*)|WARNING: ThreadSanitizer: ([\w -]+)|==\d+== (Invalid (?:read|write)[^\n]*|Conditional jump[^\n]*|Use of uninit[^\n]*|[\d,]+ bytes in [\d,]+ blocks are definitely lost[^\n]*))")


def classify(rc, log):
    """(key, summary) for an abnormal end, or None when it says nothing about the property"""
    txt = open(log, errors="replace").read()
    m = SAN.search(txt)
    if m:
        kind = next(g for g in m.groups()[1:] if g)
        frames = re.findall(r"in ((?:[\w:]*u5e::|main|run)[^\n(<]*)", txt)
        where = next((x for x in frames if "u5e" in x), "")
        fam = "asan" if m.group(2) else "ubsan" if m.group(3) else "leak" if m.group(4) else "tsan" if m.group(5) else "valgrind"
        return fam + "-" + re.sub(r"[^a-z]+", "-", kind.lower()).strip("-")[:40], (kind.strip() + (" in " + where if where else "")), txt
    if "HANG:" in txt or rc == 77:
        return "hang", "no progress for 40 CPU seconds", txt
    if isinstance(rc, int) and (rc < 0 or rc in (134, 139, 136)):
        return "crash-signal-%d" % (-rc if rc < 0 else rc - 128), "process died: " + txt.strip()[-300:], txt
    return None


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def check(prop):
    t0 = time.time()
    plan = PLAN[prop]
    tier = "thorough" if TIER == "thorough" else "quick"
    configs = plan["configs"][tier] if isinstance(plan["configs"], dict) else plan["configs"]
    work = tempfile.mkdtemp(prefix="u5e-verif-")
    violations = []      # (key, cfg, shard, group, idx, text, log)
    try:
        bins = build(prop, configs, work)
        jobs = []
        for cfg in configs:
            for text in CONFIGS[cfg].get("problems", []): violations.append(("build", cfg, 0, "build", 0, text.replace("\n", " "), None))
            if cfg not in bins: continue
            n = CONFIGS[cfg].get("shards", CORES)
            n = plan.get("shards", {}).get(cfg, n)
            for s in range(n): jobs.append((cfg, bins[cfg], s, n))
        WATCH.update(on=True, known={k["key"] for k in load_known()["known"] if k["property"] == prop}, since=time.time() if violations else None)
        with ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(lambda j: run_shard(j[0], j[1], j[2], j[3], work, SEED, tier, timeout=plan.get("timeout", {}).get(tier, 600 if tier == "quick" else 6 * 3600)), jobs))
        WATCH["on"] = False
        shards = {(j[0], j[2]): j[3] for j in jobs}
        stats = {"evaluations": 0, "counters": {}, "samples": [], "per_config": {}}
        hashes = set(); cap = False; doubt = []
        gens = sum(CONFIGS[c].get("generators", 0) for c in configs)
        if gens: stats["counters"]["generator_runs"] = gens
        hung = [x for x in res if "HANG:" in open(x[3], errors="replace").read() or x[2] == 77]
        for cfg, s, rc, log in [x for x in res if x not in hung] + hung:
            vio = os.path.join(work, "%s.%d.vio" % (cfg, s))
            if os.path.exists(vio):
                for line in open(vio, errors="replace"):
                    f = line.rstrip("\n").split("\t", 3)
                    if len(f) == 4: violations.append((f[0], cfg, s, f[1], int(f[2]), f[3], None))
            st = os.path.join(work, "%s.%d.stats" % (cfg, s))
            if os.path.exists(st):
                try: d = json.load(open(st))
                except ValueError: d = {"evaluations": 0, "counters": {}, "samples": []}      # it died while writing
                stats["evaluations"] += d["evaluations"]
                pc = stats["per_config"].setdefault(cfg, {"evaluations": 0}); pc["evaluations"] += d["evaluations"]
                for k, v in d["counters"].items(): stats["counters"][k] = max(stats["counters"].get(k, 0), v) if k.startswith("highest_") else stats["counters"].get(k, 0) + v
                for x in d["samples"]:
                    if len(stats["samples"]) < 6 and x not in stats["samples"]: stats["samples"].append(x)
                hf = os.path.join(work, "%s.%d.hashes" % (cfg, s))
                if os.path.exists(hf):
                    b = open(hf, "rb").read()
                    if len(hashes) < 3000000: hashes.update(memoryview(b[:len(b) // 8 * 8]).cast("Q"))
                    else: cap = True
            if rc == "stopped": continue                           # a violation had been seen
            if rc in (0, 1) and os.path.exists(st):
                c = classify(rc, log) if cfg.startswith("tsan") or CONFIGS[cfg].get("wrap") else None
                if c:
                    g, i, note = progress(work, cfg, s)
                    violations.append((c[0], cfg, s, g, i, c[1], c[2]))
                continue
            if cfg.startswith("tsan") and rc == 66 and os.path.exists(st):
                g, i, note = progress(work, cfg, s); c = classify(rc, log)
                if c: violations.append((c[0], cfg, s, g, i, c[1], c[2])); continue
            if rc == 99 and os.path.exists(st) and "LeakSanitizer" in open(log, errors="replace").read():
                c = classify(rc, log); violations.append((c[0], cfg, s, "at-exit", 0, c[1], c[2])); continue
            c = classify(rc, log) if rc != "timeout" else None
            if not c:
                doubt.append("driver %s shard %d ended with %s: %s" % (cfg, s, rc, open(log, errors="replace").read()[-800:])); continue
            g, i, note = progress(work, cfg, s)
            if c[0] == "hang" and violations: continue
            if c[0] == "hang":      # a hang is believed when the single case hangs again on its own
                again = run_shard(cfg, bins[cfg], s, shards[(cfg, s)], work, SEED, tier, ("--group", g, "--idx", str(i)), timeout=300)
                c2 = classify(again[2], again[3]) if again[2] not in (0, "timeout") else None
                if again[2] == "timeout" or not c2:
                    doubt.append("hang in %s/%d not reproduced alone" % (g, i)); continue
                if c2[0] != "hang": c = c2
            violations.append((c[0], cfg, s, g, i, c[1] + (" [" + note + "]" if note else ""), c[2]))
        # harness facets that must have been observed
        missing = [k for k in plan["must_see"] if not stats["counters"].get(k) and not k.startswith("monitored.")]
        unmonitored = [k for k in plan["must_see"] if not stats["counters"].get(k) and k.startswith("monitored.")]     # the library may go around iterators
        known = load_known()
        ks = {(k["property"], k["key"]): k for k in known["known"]}
        seen_known, new = {}, []
        for v in violations:
            k = ks.get((prop, v[0]))
            if k: seen_known[v[0]] = (k, v)
            else: new.append(v)
        for key, (k, v) in sorted(seen_known.items()):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        if not new and doubt: raise Undecided("; ".join(doubt))      # what the monitors did see counts all the same
        if not new and (missing or not stats["evaluations"]):
            raise Undecided("nothing observed for: %s" % ", ".join(missing or ["evaluations"]))
        ev = {"property": prop, "tier": tier, "seed": SEED, "level": plan.get("level", "exploration"),
              "coverage": {"evaluations": stats["evaluations"], "distinct_nontrivial": len(hashes), "rule": plan["rule"],
                           "samples": stats["samples"] or ["(none)"], "observed": stats["counters"], "per_configuration": stats["per_config"]},
              "assumptions": plan.get("assumptions", []) + COMMON_ASSUMPTIONS,
              "wall_s": round(time.time() - t0, 2), "violations": len(new)}
        if unmonitored: ev["coverage"]["not_observed"] = unmonitored
        if plan.get("exhaustive"): ev["coverage"]["exhaustive"] = False
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        if not new:
            print("OK property=%s %d evaluations, %d distinct non-trivial inputs, %.1fs" % (prop, stats["evaluations"], len(hashes), time.time() - t0))
            return 0
        rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True)
        done = set()
        for v in new:
            if v[0] in done: continue
            done.add(v[0])
            path = os.path.join(rd, "%s-%s.json" % (prop, re.sub(r"[^\w-]", "_", v[0])))
            with open(path, "w") as f:
                json.dump({"property": prop, "key": v[0], "config": v[1], "seed": SEED, "tier": tier, "group": v[3], "idx": v[4], "what": v[5],
                           "log": (v[6] or "")[-6000:]}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s/%s case %s:%d: %s" % (v[0], v[1], v[3], v[4], v[5][:600]))
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


COMMON_ASSUMPTIONS = ["the pinned Unicode 9.0 files in /verif/data and the model in harness/ref.hpp are right",
                      "held on the executions produced, not proved for the ones that were not"]


def replay(path):
    d = json.load(open(path)); prop = d["property"]
    work = tempfile.mkdtemp(prefix="u5e-verif-")
    try:
        bins = build(prop, [d["config"]], work)
        r = run_shard(d["config"], bins[d["config"]], 0, 1, work, d["seed"], d["tier"],
                      () if d["group"] == "at-exit" else ("--group", d["group"], "--idx", str(d["idx"])))
        print(open(r[3], errors="replace").read())
        v = os.path.join(work, "%s.0.vio" % d["config"])
        if os.path.exists(v): print(open(v, errors="replace").read())
        return 1 if r[2] else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay": return replay(sys.argv[2])
    try:
        return check(sys.argv[1])
    except Undecided as e:
        print("UNDECIDED property=%s %s" % (sys.argv[1], e)); return 2
    except subprocess.TimeoutExpired as e:
        print("UNDECIDED property=%s %s" % (sys.argv[1], e)); return 2


if __name__ == "__main__":
    sys.exit(main())
