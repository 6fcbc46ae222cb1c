#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--seed N]   builds the harness of PROPERTY from /repo's
                                                         working tree, runs it, judges, writes evidence
   run.py --replay FILE                                  re-runs the one case a replay file names
   run.py --setup                                        compiles every harness (a warm cache only)
Exit 0: held on everything explored; 1: VIOLATION; 2 and more: error of the check itself."""
import concurrent.futures as cf
import glob, hashlib, json, mmap, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
CXX = "/usr/bin/clang++-18"
JOBS = os.cpu_count() or 8
BASE = ["-stdlib=libc++", "-std=gnu++14", "-pthread", "-w",
        "-fms-extensions", "-fms-compatibility", "-fms-compatibility-version=19.30", "-U_MSC_VER",
        "-fno-delayed-template-parsing", "-include", os.path.join(HARNESS, "gnuc_macros.h"), "-include", "utility",
        "-I" + REPO + "/include", "-I" + REPO + "/experimental/include", "-I" + HARNESS, "-I" + VERIF]
# one sanitizer family per build; libc++'s own hardening checks container bounds and iterator misuse
VARIANTS = {
    "asan": ["-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize=pointer-overflow,function,vptr", "-fno-sanitize-recover=all",
             "-D_LIBCPP_HARDENING_MODE=_LIBCPP_HARDENING_MODE_EXTENSIVE"],
    "tsan": ["-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    # plain optimised build: the code generation users get, used where volume of cases matters
    "fast": ["-O2", "-g0", "-D_LIBCPP_HARDENING_MODE=_LIBCPP_HARDENING_MODE_FAST"],
}
ENV = dict(os.environ, LC_ALL="C.UTF-8", PATH="/usr/local/bin:/usr/bin:/bin",
           ASAN_OPTIONS="abort_on_error=0:exitcode=66:detect_leaks=0:detect_stack_use_after_return=1:"
                        "allocator_may_return_null=0:max_allocation_size_mb=3000:hard_rss_limit_mb=6000:"
                        "malloc_context_size=8:alloc_dealloc_mismatch=0:quarantine_size_mb=32:strict_init_order=0:handle_abort=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=66",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1")
for k in ("CXXFLAGS", "CPPFLAGS", "LDFLAGS", "CPATH", "CPLUS_INCLUDE_PATH"):
    ENV.pop(k, None)
CASE_CPU = 20      # seconds of CPU one case may take
CONFIRM_CPU = 60   # and when it is run again, alone
JOB_WALL = {"quick": 400, "thorough": 7200}


class HarnessError(Exception):
    pass


def repo_files():
    out = []
    for root in ("include", "experimental/include", "src"):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            out += [os.path.join(d, f) for f in fs]
    return sorted(out)


_repo_hash = None
def repo_hash():
    global _repo_hash
    if _repo_hash is None:
        h = hashlib.sha256()
        for f in repo_files() + sorted(glob.glob(HARNESS + "/*.h") + glob.glob(HARNESS + "/*.inc")):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
        _repo_hash = h.hexdigest()
    return _repo_hash


def compile_one(src, variant):
    flags = BASE + VARIANTS[variant]
    text = open(src, "rb").read()
    for line in text.decode("utf-8", "replace").splitlines()[:5]:
        if line.startswith("// FLAGS:"):
            flags = flags + line[len("// FLAGS:"):].split()
    h = hashlib.sha256((repo_hash() + src + variant + "\0".join(flags)).encode() + text).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "." + variant + "." + h + ".o")
    if not os.path.exists(obj):
        tmp = "%s.%d.tmp" % (obj, os.getpid())
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            raise HarnessError("compilation of %s failed:\n%s" % (src, r.stdout[-6000:]))
        os.rename(tmp, obj)
    return obj


def lib_sources():
    return sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) + [os.path.join(HARNESS, "vm.cpp")]


def sources(prop):
    """{variant: [source files]}; the variant is the last dotted part of the name: c35_x.tsan.cpp"""
    res = {}
    for f in sorted(glob.glob(os.path.join(HARNESS, prop.lower() + "_*.cpp"))):
        parts = os.path.basename(f)[:-4].split(".")
        for v in (parts[1:] or ["asan"]):
            res.setdefault(v, []).append(f)
    if not res:
        raise HarnessError("no harness for " + prop)
    return res


def build(props):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    todo, plan = [], {}
    for p in props:
        for v, srcs in sources(p).items():
            plan[(p, v)] = srcs + lib_sources()
            todo += [(s, v) for s in plan[(p, v)]]
    todo = sorted(set(todo), key=lambda t: -os.path.getsize(t[0]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = dict(zip(todo, ex.map(lambda t: compile_one(*t), todo)))
        def link(item):
            (p, v), srcs = item
            o = [objs[(s, v)] for s in srcs]
            h = hashlib.sha256("\0".join(o).encode()).hexdigest()[:24]
            exe = os.path.join(BUILD, "%s.%s.%s" % (p, v, h))
            if not os.path.exists(exe):
                for old in glob.glob(os.path.join(BUILD, "%s.%s.*" % (p, v))):
                    os.remove(old)
                tmp = exe + ".tmp%d" % os.getpid()
                r = subprocess.run([CXX] + BASE[:3] + VARIANTS[v] + o + ["-lgmp", "-o", tmp], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if r.returncode != 0:
                    raise HarnessError("linking %s failed:\n%s" % (p, r.stdout[-4000:]))
                os.rename(tmp, exe)
            return (p, v), exe
        return dict(ex.map(link, plan.items()))


def prune_objects(keep_bytes=3 << 30):
    files = sorted(glob.glob(os.path.join(BUILD, "obj", "*")), key=os.path.getmtime, reverse=True)
    total = 0
    for f in files:
        total += os.path.getsize(f)
        if total > keep_bytes:
            os.remove(f)


def units_of(exe):
    r = subprocess.run([exe, "--list"], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise HarnessError("--list failed: " + r.stderr[-2000:])
    res = []
    for line in r.stdout.splitlines():
        n, q, t, rule = line.split("\t", 3)
        res.append((n, int(q), int(t), rule))
    return sorted(res)


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json"))) if k["property"] == prop and k["status"] == "known"]
        self.violations, self.known_hit, self.stats = [], [], []
        self.samples, self.hashes, self.inconclusive = [], set(), []
        self.stop = False
        self.work = tempfile.mkdtemp(prefix="vm_%s_" % prop)

    def execute(self, exe, args, cpu, wall):
        """runs one harness process; returns (status, records, index, desc, log)"""
        d = tempfile.mkdtemp(dir=self.work)
        out, st, log = d + "/out", d + "/state", d + "/log"
        scratch = d + "/cwd"
        os.mkdir(scratch)
        cmd = [exe, "--out", out, "--state", st, "--tier", self.tier, "--seed", str(self.seed), "--cpu", str(cpu)] + args
        with open(log, "wb") as lf:
            try:
                p = subprocess.Popen(cmd, env=dict(ENV, VM_SCRATCH=scratch), cwd=scratch, stdin=subprocess.DEVNULL, stdout=lf, stderr=lf, start_new_session=True)
                rc = p.wait(timeout=wall)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                rc = "wall"
        recs = []
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
        index = done = status = 0
        desc = ""
        if os.path.exists(st) and os.path.getsize(st) >= 24:
            raw = open(st, "rb").read()
            index, done, status = struct.unpack("<QQQ", raw[:24])
            desc = raw[24:].split(b"\0", 1)[0].decode("latin-1")
        if os.path.exists(out + ".hashes"):
            raw = open(out + ".hashes", "rb").read()
            recs.append({"type": "hashes", "set": set(struct.unpack("<%dQ" % (len(raw) // 8), raw))})
        text = open(log, errors="replace").read()
        shutil.rmtree(d, ignore_errors=True)
        return rc, status, done, index, desc, recs, text

    def crash_tag(self, log):
        m = re.search(r"(?:ERROR|WARNING): (\w+Sanitizer): ([\w\- ]+)", log)
        if m:
            return "crash " + m.group(1) + " " + m.group(2).strip().split(" on ")[0]
        m = re.search(r"runtime error: (.*)", log)
        if m:
            return "crash UB " + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:80]
        m = re.search(r"assertion (.*?) failed", log)
        if m:
            return "crash library assertion " + m.group(1)[:80]
        return "crash"

    def add(self, unit, case, tag, msg, inp, variant):
        v = dict(property=self.prop, unit=unit, case=case, tag=tag, msg=msg, input=inp, seed=self.seed, tier=self.tier, variant=variant)
        for k in self.known:
            if k["unit"] == unit and k["tag"] == tag and k["input"] == inp:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return
        self.violations.append(v)
        if len(self.violations) >= 4:
            self.stop = True

    def job(self, exe, variant, unit, n, start, step):
        nxt, retries = start, 0
        while nxt < n and not self.stop:
            rc, status, done, index, desc, recs, log = self.execute(exe, ["--unit", unit, "--from", str(nxt), "--step", str(step), "--max-fail", "60"], CASE_CPU, JOB_WALL[self.tier])
            finished = False
            for r in recs:
                if r["type"] == "violation":
                    self.add(unit, r["case"], r["tag"], r["msg"], r["input"], variant)
                elif r["type"] == "sample":
                    self.samples.append(r)
                elif r["type"] == "stats":
                    finished = True
                    self.stats.append(r)
                elif r["type"] == "hashes":
                    self.hashes |= r["set"]
            if finished and rc in (0, 1):
                return
            if rc == 98 or (rc not in ("wall",) and done == 0 and not desc and index == 0 and status == 0 and nxt != 0):
                raise HarnessError("harness process failed (rc %s)\n%s" % (rc, log[-3000:]))
            # the process died or hung in case `index`: run that case again, alone
            rc2, status2, _, _, desc2, recs2, log2 = self.execute(exe, ["--unit", unit, "--only", str(index)], CONFIRM_CPU, CONFIRM_CPU * 4)
            if any(r["type"] == "stats" for r in recs2):
                for r in recs2:
                    if r["type"] == "violation":
                        self.add(unit, r["case"], r["tag"], r["msg"], r["input"], variant)
                retries += 1
                if "Sanitizer" in log or "runtime error" in log:
                    # a report that does not repeat when run alone (history- or schedule-dependent) is still a report
                    self.add(unit, index, self.crash_tag(log), log[-4000:], desc, variant)
                elif rc not in (97, "wall"):
                    self.inconclusive.append("%s case %d: process ended with %s once, passed alone" % (unit, index, rc))
            elif rc2 == 97:
                self.add(unit, index, "hang", "the case used more than %d s of CPU, twice" % CONFIRM_CPU, desc2, variant)
            elif rc2 == "wall":
                if rc == "wall":
                    self.add(unit, index, "hang", "no progress within the wall-clock limit, twice (blocked)", desc2, variant)
                else:
                    self.inconclusive.append("%s case %d: wall-clock limit" % (unit, index))
            else:
                self.add(unit, index, self.crash_tag(log2), log2[-4000:], desc2, variant)
            self.stats.append({"unit": unit, "cases": done, "checks": 0, "nontrivial": 0, "events": {}})
            if retries > 3:
                self.inconclusive.append("%s: gave up after repeated unexplained process ends" % unit)
                return
            nxt = index + step

    def run(self, only_unit=None):
        t0 = time.time()
        exes = build([self.prop])
        t1 = time.time()
        jobs, declared = [], {}
        for (p, v), exe in sorted(exes.items()):
            for name, q, t, rule in units_of(exe):
                if only_unit and name != only_unit:
                    continue
                n = t if self.tier == "thorough" else q
                declared[name + "." + v] = rule
                shards = max(1, min(JOBS if v != "tsan" else 2, n))
                for s in range(shards):
                    jobs.append((s, exe, v, name, n, s, shards))
        jobs.sort(key=lambda j: j[0])
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(self.job, *j[1:]) for j in jobs]
            for f in futs:
                f.result()
        shutil.rmtree(self.work, ignore_errors=True)
        return self.judge(declared, t0, t1)

    def judge(self, declared, t0, t1):
        units, events = {}, {}
        for s in self.stats:
            u = units.setdefault(s["unit"], {"cases": 0, "checks": 0, "nontrivial": 0})
            for k in u:
                u[k] += s[k]
            for k, n in s["events"].items():
                events[k] = events.get(k, 0) + n
        samples, seen = [], set()
        for s in self.samples:
            if s["unit"] not in seen:
                seen.add(s["unit"])
                samples.append({"unit": s["unit"], "case": s["case"], "input": s["input"]})
        level = next((c["level"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"] if c["property"] == self.prop), "exploration") \
            if os.path.exists(os.path.join(VERIF, "MANIFEST.json")) else "exploration"
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "evaluations": sum(u["cases"] for u in units.values()),
                "distinct_nontrivial": len(self.hashes),
                "rule": "a case is one generated workload (see `units`); non-trivial and distinct as counted by the hash of its input, "
                        "skipping degenerate inputs; the hash set is capped at 200000 per process",
                "oracle_comparisons": sum(u["checks"] for u in units.values()),
                "observed_events": dict(sorted(events.items())),
                "units": {k: dict(units.get(k.rsplit(".", 1)[0], {}), rule=v, build=k.rsplit(".", 1)[1]) for k, v in sorted(declared.items())},
                "samples": samples[:40] or ["none"],
            },
            "assumptions": ["holds on the executions counted here; nothing is claimed about inputs not generated",
                            "built with clang 18, libc++, the flags of /opt/vp/cmake plus sanitizers and libc++ hardening"],
            "wall_s": round(time.time() - t0, 2), "build_s": round(t1 - t0, 2),
            "violations": len(self.violations),
        }
        if self.inconclusive:
            ev["inconclusive"] = self.inconclusive[:20]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for k in self.known:
            if k not in self.known_hit:
                print("note: known finding did not show up in this run: property=%s %s" % (self.prop, k["what"]))
        if self.violations:
            os.makedirs(os.path.join(VERIF, ".build", "replay"), exist_ok=True)
            for i, v in enumerate(self.violations[:4]):
                path = os.path.join(VERIF, ".build", "replay", "%s-%s-%s.json" % (self.prop, v["unit"], v["case"]))
                v["replay"] = "python3 /verif/run.py --replay " + path
                json.dump(v, open(path, "w"), indent=1)
                print("violated: unit %s case %s [%s] input: %s\n  %s" % (v["unit"], v["case"], v["tag"], v["input"][:1500], v["msg"][:1200]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        tot = ev["coverage"]
        if tot["evaluations"] == 0 or tot["oracle_comparisons"] == 0:
            print("error: nothing was observed")
            return 3
        silent = [k for k, n in declared.items() if units.get(k.rsplit(".", 1)[0], {}).get("checks", 0) == 0]
        if silent:
            print("error: units without a single oracle comparison: %s" % silent)
            return 3
        if self.inconclusive:
            print("inconclusive: %s" % "; ".join(self.inconclusive[:5]))
            return 4
        print("held: property=%s tier=%s seed=%d cases=%d comparisons=%d distinct=%d build=%.1fs total=%.1fs" %
              (self.prop, self.tier, self.seed, tot["evaluations"], tot["oracle_comparisons"], tot["distinct_nontrivial"], t1 - t0, time.time() - t0))
        return 0


def main():
    a = sys.argv[1:]
    def opt(name, default):
        return a[a.index(name) + 1] if name in a else default
    try:
        if "--setup-check" in a:   # nothing is cached between runs: only make sure that the compiler works
            os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
            compile_one(os.path.join(HARNESS, "vm.cpp"), "asan")
            print("ok")
            return 0
        if "--setup" in a:
            props = sorted({os.path.basename(f).split("_")[0].upper() for f in glob.glob(HARNESS + "/c[0-9]*_*.cpp")})
            build(props)
            print("built", len(props))
            return 0
        if "--replay" in a:
            v = json.load(open(opt("--replay", "")))
            r = Runner(v["property"], v["tier"], v["seed"])
            exe = build([v["property"]])[(v["property"], v["variant"])]
            rc, status, done, index, desc, recs, log = r.execute(exe, ["--unit", v["unit"], "--only", str(v["case"])], CONFIRM_CPU, CONFIRM_CPU * 4)
            shutil.rmtree(r.work, ignore_errors=True)
            print("rc", rc, "input:", desc)
            for x in recs:
                if x["type"] == "violation":
                    print(x["tag"], "::", x["msg"])
            print(log[-6000:])
            return 0 if rc == 0 else 1
        prop = a[0]
        tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
        seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
        prune_objects()
        return Runner(prop, tier, seed).run(opt("--unit", None))
    except HarnessError as e:
        print("error of the check:", e)
        return 2


sys.exit(main())
