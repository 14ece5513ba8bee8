#!/usr/bin/env python3
"""Builds the instrumented library and the drivers from /repo's working tree, runs
them in seeded shards, collects what the monitors observed, and decides.

  run.py setup                     build everything
  run.py check C01                 tier from VERIF_TIER (default quick)
  run.py replay FILE               run one recorded case again, verbosely
Exit: 0 held, 1 violation (VIOLATION line), 2 the check itself could not run.
"""
import fcntl, fnmatch, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(HERE, "build"))
NPROC = os.cpu_count() or 4
START = time.time()
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


def env_build():
    e = dict(os.environ)
    e.update(CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="3G",
             CCACHE_SLOPPINESS="time_macros,include_file_mtime,include_file_ctime",
             CCACHE_BASEDIR="/", CC="gcc", CXX="g++", LC_ALL="C.UTF-8")
    return e


def build(variant, targets):
    d = os.path.join(BUILD, variant)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        log = os.path.join(d, "build.log")
        with open(log, "w") as out:
            if not os.path.exists(os.path.join(d, "build.ninja")):
                r = subprocess.run(["cmake", "-S", os.path.join(HERE, "cmake"), "-B", d, "-G", "Ninja",
                                    "-DVARIANT=" + variant, "-DREPO=" + REPO],
                                   stdout=out, stderr=subprocess.STDOUT, env=env_build())
                if r.returncode:
                    return False, log
            r = subprocess.run(["ninja", "-C", d] + targets, stdout=out, stderr=subprocess.STDOUT, env=env_build())
            return r.returncode == 0, log


def known_findings():
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                res.append(dict(prop=m.group(1), key=m.group(2), what=m.group(3)))
    return res


def classify_crash(err, rc):
    """A stable key for an abnormal end of a driver."""
    frames = [f for f in re.findall(r"^\s*#\d+ 0x[0-9a-f]+ in (.*)$", err, re.M)]
    where = ""
    for f in frames:
        m = re.search(r"(/repo/\S+?):(\d+)", f)
        if m:
            fn = re.sub(r"[<(].*", "", f.split(" /")[0]).strip()
            where = os.path.basename(m.group(1)) + "/" + fn.split("::")[-1]
            break
    if "VF-CPU-LIMIT" in err:
        return "hang"
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m:
        return "asan:%s:%s" % (m.group(1), where)
    m = re.search(r"^(\S+?):(\d+):(\d+): runtime error: (.*)$", err, re.M)
    if m:
        return "ubsan:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(4))[:60].replace(" ", "_"))
    m = re.search(r"ERROR: LeakSanitizer", err)
    if m:
        return "leak:" + where
    m = re.search(r"Assertion [`'](.*?)['\u2019] failed", err)
    if m:
        return "assert:" + re.sub(r"\s+", "_", m.group(1))[:80]
    if "VF-TERMINATE" in err:
        return "terminate"
    return "signal:%d" % (-rc if rc < 0 else rc)


def tsan_reports(err):
    """(kind, place of one access, place of the other; places in the tree under test), case, text of every report."""
    res = []
    parts = re.split(r"^WARNING: ThreadSanitizer: ", err, flags=re.M)[1:]
    for k, part in enumerate(parts):
        kind = re.sub(r"\s*\(pid=\d+\).*", "", part.split("\n")[0]).strip().replace(" ", "-")
        case = re.search(r"VF-TSAN-CASE (\S+)", part)
        places = []
        for stack in re.split(r"\n\s*\n", part)[:2]:
            for f in re.findall(r"^\s*#\d+ (.*)$", stack, re.M):
                m = re.search(r"(\S*/(?:include/crocoddyl|src/core|src/multibody)/\S+?):(\d+)", f)
                if m:
                    fn = re.sub(r"\(.*", "", re.sub(r"<[^()]*>", "", f.split(" /")[0].split(" ../")[0])).strip().split(" ")[-1]
                    places.append(os.path.basename(m.group(1)) + "/" + fn.split("::")[-1])
                    break
            else:
                places.append("outside")
        res.append(("%s:%s" % (kind, "|".join(sorted(set(places)))), case.group(1) if case else None, part[:3000]))
    return res


def valgrind_reports(err):
    """(key, case, text) of every error memcheck reported."""
    res, part = [], []
    case = None
    chunks = re.split(r"^VF-VG-CASE (\S+)$", err, flags=re.M)
    for i in range(0, len(chunks), 2):
        case = chunks[i + 1] if i + 1 < len(chunks) else None
        for block in re.split(r"^==\d+== $", chunks[i], flags=re.M):
            lines = [re.sub(r"^==\d+== ", "", l) for l in block.splitlines() if re.match(r"==\d+== ", l)]
            if not lines or not any(re.match(r"\s+(at|by) 0x", l) for l in lines):
                continue
            kind = re.sub(r"0x[0-9A-Fa-f]+", "N", re.sub(r"\(.*?\)", "", lines[0])).strip().replace(" ", "-")[:70]
            where = "outside"
            for l in lines:
                m = re.match(r"\s+(?:at|by) 0x\S+: (.*) \((\S+?):(\d+)\)$", l)
                if m and "/" not in m.group(2) and re.search(r"crocoddyl::", m.group(1)):
                    where = "%s/%s" % (m.group(2), re.sub(r"[<(].*", "", re.sub(r"<[^()]*>", "", m.group(1))).split("::")[-1].split(" ")[-1])
                    break
            res.append(("memcheck:%s:%s" % (kind, where), case, block[:3000]))
    return res


class Shard:
    def __init__(self, exe, cfg, seed, tier, k, n, wd, only=None):
        self.exe, self.cfg, self.seed, self.tier, self.k, self.n, self.wd = exe, cfg, seed, tier, k, n, wd
        self.skip, self.only, self.crashes = [], only, 0
        self.start()

    def start(self):
        base = os.path.join(self.wd, "s%d" % self.k)
        self.out, self.prog, self.errf = base + ".json", base + ".progress", base + ".err"
        for f in (self.out, self.prog):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [self.exe, "--seed", str(self.seed), "--tier", self.tier, "--shard", "%d/%d" % (self.k, self.n),
               "--out", self.out, "--progress", self.prog, "--cpu", str(self.cfg.get("cpu", 60)),
               "--scale", str(self.cfg.get("scale", 1.0))]
        if self.cfg.get("memory"):      # what the checks say is judged by the other properties
            cmd.append("--memory")
        if self.cfg.get("valgrind"):
            cmd = ["valgrind", "-q", "--error-exitcode=9", "--num-callers=30", "--show-realloc-size-zero=no", "--leak-check=no",
                   "--error-limit=no", "--track-origins=no"] + cmd
        if self.only:
            cmd += ["--only", self.only]
        for s in self.skip:
            cmd += ["--skip", s]
        for s in self.cfg.get("known", ()):
            cmd += ["--known", s]
        e = dict(os.environ)
        e.update(ASAN_OPTIONS="detect_leaks=%d:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0" % (1 if self.cfg.get("leaks") else 0),
                 LSAN_OPTIONS="suppressions=%s:print_suppressions=0" % os.path.join(HERE, "lsan.supp"),
                 UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98",
                 TSAN_OPTIONS="halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4",
                 OMP_NUM_THREADS="4", TMPDIR=self.wd, VF_TMP=self.wd)
        self.p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(self.errf, "w"), env=e, cwd=self.wd)

    def err(self, tail=20000):
        with open(self.errf, errors="replace") as f:
            return f.read()[-tail:]

    def case(self):
        try:
            return open(self.prog).read().split()[0]
        except Exception:
            return None


def run_driver(prop, cfg, variant, driver, seed, tier, wd):
    exe = os.path.join(BUILD, variant, driver)
    n = cfg.get("shards", NPROC)
    shards = [Shard(exe, cfg, seed, tier, k, n, wd) for k in range(n)]
    t0 = time.time()
    limit = cfg.get("wall", 600 if tier == "quick" else 7200)
    if tier == "quick":             # the whole check answers within its time
        limit = max(30, min(limit, START + 810 - t0))
    reports, viol, inconclusive = [], [], []
    pend = list(shards)
    self_vg = cfg.get("valgrind")
    while pend:
        for s in list(pend):
            rc = s.p.poll()
            if rc is None:
                if time.time() - t0 > limit:
                    s.p.kill(); s.p.wait()
                    inconclusive.append("wall clock limit in %s" % s.case())
                    pend.remove(s)
                continue
            if rc in (0, 3) and os.path.exists(s.out):
                reports.append(json.load(open(s.out)))
                pend.remove(s)
                continue
            err, case = s.err(), s.case()
            key = classify_crash(err, rc)
            if rc == 66 or "ThreadSanitizer" in err:      # TSan: all reports of the shard
                seen = set()
                for k, at, text in tsan_reports(s.err(0)):
                    if k in seen:
                        continue
                    seen.add(k)
                    at = (at or case or "?:0").split(":")
                    viol.append(dict(key="tsan:" + k[:160], scenario=at[0], index=int(at[1]), count=1, detail=text))
                if not seen:
                    inconclusive.append("ThreadSanitizer failed: " + err[-500:])
                if os.path.exists(s.out):
                    reports.append(json.load(open(s.out)))
                pend.remove(s)
                continue
            if self_vg and (rc == 9 or "VF-VG-CASE" in s.err(0)):
                seen = set()
                for k, at, text in valgrind_reports(s.err(0)):
                    if k not in seen:
                        seen.add(k)
                        at = (at or case or "?:0").split(":")
                        viol.append(dict(key="%s:%s" % (k[:160], at[0]), scenario=at[0], index=int(at[1]), count=1, detail=text))
                if not seen:
                    inconclusive.append("memcheck failed: " + err[-500:])
                if os.path.exists(s.out):
                    reports.append(json.load(open(s.out)))
                pend.remove(s)
                continue
            if case is None:
                inconclusive.append("shard %d ended with %s before its first case: %s" % (s.k, rc, err[-500:]))
                pend.remove(s)
                continue
            if key == "hang" and not any(v["key"].startswith("hang:") for v in viol):
                # confirm alone with a larger budget before believing it
                c2 = dict(cfg); c2["cpu"] = 3 * cfg.get("cpu", 60)
                wd2 = os.path.join(wd, "retry%d" % s.k); os.makedirs(wd2, exist_ok=True)
                r2 = Shard(exe, c2, seed, tier, 0, 1, wd2, only=case)
                try:
                    rc2 = r2.p.wait(timeout=max(20, min(5 * cfg.get("cpu", 60), START + 830 - time.time() if tier == "quick" else 1e9)))
                except subprocess.TimeoutExpired:
                    r2.p.kill(); r2.p.wait(); rc2 = 97
                if rc2 in (0, 3):
                    reports.append(json.load(open(r2.out)))
                    s.skip.append(case); s.crashes += 1
                    s.start()
                    continue
            viol.append(dict(key="%s:%s" % (key, case.split(":")[0]), scenario=case.split(":")[0], index=int(case.split(":")[1]),
                             count=1, detail=err[-3000:]))
            s.crashes += 1
            s.skip.append(case)
            if s.crashes > (1 if key == "hang" else 6) or time.time() - t0 > limit:
                pend.remove(s)
            else:
                s.start()
        time.sleep(0.02)
    return reports, viol, inconclusive


def check(prop):
    t0 = time.time()
    cfg0 = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    runs = cfg0["runs"]
    total = dict(cases=0, evaluations=0, counters={}, maxima={}, sigs=set(), samples=[])
    viol, inconclusive = [], []
    by = {}
    for run in runs:
        by.setdefault(run.get("variant", "mon"), []).append(run["driver"])
    for variant, drivers in by.items():
        ok, log = build(variant, sorted(set(drivers)))
        if not ok:
            print(open(log, errors="replace").read()[-4000:])
            print("BUILD-FAILED %s %s (log: %s)" % (variant, drivers, log))
            return 2

    def one(run):
        cfg = dict(run)
        cfg["known"] = [k["key"] for k in known_findings() if k["prop"] == prop]
        if tier == "thorough" and "scale_thorough" in run:
            cfg["scale"] = run["scale_thorough"]
        variant, driver = run.get("variant", "mon"), run["driver"]
        wd = os.path.join(BUILD, "run", "%s-%s-%s-%d" % (prop, variant, driver, os.getpid()))
        os.makedirs(wd, exist_ok=True)
        try:
            return run_driver(prop, cfg, variant, driver, seed, tier, wd)
        finally:
            subprocess.run(["rm", "-rf", wd])

    with ThreadPoolExecutor(cfg0.get("parallel", 1)) as pool:
        results = list(pool.map(one, runs))
    for run, (reps, v, inc) in zip(runs, results):
        variant, driver = run.get("variant", "mon"), run["driver"]
        for x in v:
            x.update(variant=variant, driver=driver)
        viol += v
        inconclusive += inc
        for r in reps:
            total["cases"] += r["cases"]
            total["evaluations"] += r["evaluations"]
            if run.get("borrowed"):     # another property's workload: how much of it ran
                k = "cases of %s (%s)" % (driver, variant)
                total["counters"][k] = total["counters"].get(k, 0) + r["cases"]
            else:
                for k, n in r["counters"].items():
                    total["counters"][k] = total["counters"].get(k, 0) + n
                total["samples"] += r["samples"]
            for k, n in r["maxima"].items() if not run.get("borrowed") else ():
                n = float(n)
                total["maxima"][k] = max(total["maxima"].get(k, n), n)
            total["sigs"] |= set(r["sigs"])
            for x in r["violations"]:
                x.update(variant=variant, driver=driver)
                viol.append(x)
    known = [k for k in known_findings() if k["prop"] == prop]
    new, seen_known = {}, {}
    for v in viol:
        hit = next((k for k in known if fnmatch.fnmatchcase(v["key"], k["key"])), None)
        if hit:
            seen_known.setdefault(hit["key"], hit)
        else:
            new.setdefault(v["key"], v)
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    lines = []
    rd = os.path.join(BUILD, "replay")
    os.makedirs(rd, exist_ok=True)
    for j, (k, v) in enumerate(sorted(new.items())):
        path = os.path.join(rd, "%s-%d.json" % (prop, j))
        json.dump(dict(property=prop, seed=seed, tier=tier, **v), open(path, "w"), indent=1)
        print("  key=%s case=%s:%s count=%s\n    %s" % (k, v["scenario"], v["index"], v["count"], v["detail"][:600].replace("\n", "\n    ")))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    miss = []
    for c in cfg0.get("must_observe", []):
        if not total["counters"].get(c):
            miss.append(c)
    samples = total["samples"][:6] or ["(no sample recorded)"]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 2), violations=len(new),
              coverage=dict(evaluations=total["cases"], distinct_nontrivial=len(total["sigs"]), rule=cfg0["rule"], samples=samples,
                            oracle_evaluations=total["evaluations"], observed=total["counters"],
                            maxima={k: (v if v == v and abs(v) < 1e300 else str(v)) for k, v in total["maxima"].items()},
                            known_findings_reproduced=sorted(seen_known), inconclusive=inconclusive),
              assumptions=cfg0.get("assumptions", []))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s tier=%s seed=%d: %d cases, %d oracle evaluations, %d distinct situations, %.1f s"
          % (prop, tier, seed, total["cases"], total["evaluations"], len(total["sigs"]), time.time() - t0))
    for x in inconclusive:
        print("inconclusive:", x)
    if lines:
        print("\n".join(lines))
        return 1
    if miss or inconclusive or not total["cases"] or not total["sigs"]:
        print("CHECK-ERROR: the run observed too little: missing=%s inconclusive=%d" % (miss, len(inconclusive)))
        return 2
    return 0


def replay(path):
    v = json.load(open(path))
    ok, log = build(v["variant"], [v["driver"]])
    if not ok:
        print("build failed, see", log)
        return 2
    exe = os.path.join(BUILD, v["variant"], v["driver"])
    return subprocess.run((["valgrind", "-q", "--num-callers=30"] if v["variant"] == "vg" else []) + [exe, "--seed", str(v["seed"]), "--tier", v["tier"], "--only", "%s:%s" % (v["scenario"], v["index"]),
                           "--verbose"]).returncode


def setup():
    by = {}
    for c in CHECKS.values():
        for r in c["runs"]:
            by.setdefault(r.get("variant", "mon"), set()).add(r["driver"])
    rc = 0
    for variant, drivers in sorted(by.items()):
        ok, log = build(variant, sorted(drivers))
        print("%s: %s (%d drivers)" % (variant, "built" if ok else "FAILED, see " + log, len(drivers)))
        if not ok:
            print(open(log, errors="replace").read()[-3000:])
            rc = 2
    return rc


if __name__ == "__main__":
    if sys.argv[1] == "setup":
        sys.exit(setup())
    if sys.argv[1] == "check":
        sys.exit(check(sys.argv[2]))
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(2)
