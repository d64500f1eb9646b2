"""Builds the monitoring harnesses of one property from /repo's working tree,
runs them in shards, folds what the monitors observed into a verdict."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BATS_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
KNOWN = os.path.join(VERIF, "known_findings.json")
NCPU = max(1, min(8, os.cpu_count() or 8))

COMMON = ["-std=c++17", "-fopenmp", "-w", "-DVERIF_MONITOR"]
MODES = {
    # memory and undefined behaviour: reports are fatal
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
             "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "plain": ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    # data races; the OpenMP runtime is the instrumented stand-in omp_shim.cpp
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    # uninitialised values, under valgrind memcheck
    "memcheck": ["-O1", "-g1"],
}


class CheckError(Exception):
    pass


class LinkViolation(CheckError):
    """the units of a program of several translation units clash"""


def tree_hash(root, exts=None):
    h = hashlib.sha256()
    for d, dn, fn in sorted(os.walk(root)):
        dn.sort()
        for f in sorted(fn):
            if exts and not f.endswith(exts):
                continue
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def program_id(pr):
    return pr["src"].rsplit(".", 1)[0] + "".join(
        "_" + re.sub(r"\W+", "", d) for d in pr.get("defs", [])) + "_" + pr.get("mode", "asan")


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          text=True, errors="replace", **kw)


def build(pr, inc_hash):
    mode = pr.get("mode", "asan")
    flags = COMMON + MODES[mode] + ["-D" + d for d in pr.get("defs", [])]
    h = hashlib.sha256()
    h.update(inc_hash.encode())
    for f in sorted(os.listdir(HARN)):
        if f.endswith(".hpp") or f == pr["src"] or f == "omp_shim.cpp":
            with open(os.path.join(HARN, f), "rb") as fh:
                h.update(f.encode() + fh.read())
    h.update(" ".join(flags).encode())
    pid = program_id(pr)
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, pid + "-" + h.hexdigest()[:20])
    if os.path.exists(exe):
        return exe
    for f in os.listdir(BUILD):            # older builds of the same program
        if f.startswith(pid + "-"):
            try:
                os.unlink(os.path.join(BUILD, f))
            except OSError:
                pass
    tmp = "%s.tmp%d" % (exe, os.getpid())
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + HARN]
    src = os.path.join(HARN, pr["src"])
    if mode == "tsan":
        objs = []
        # the stand-in runtime itself is not instrumented: only the
        # happens-before edges it announces count
        shim = os.path.join(HARN, "omp_shim.cpp")
        for s, fl in ((src, flags), (shim, ["-std=c++17", "-O1", "-w"])):
            o = tmp + "." + os.path.basename(s) + ".o"
            objs.append(o)
            r = run(["g++"] + fl + inc + ["-c", s, "-o", o], timeout=800)
            if r.returncode:
                raise CheckError("compiling %s failed:\n%s" % (s, r.stderr[-4000:]))
        r = run(["g++", "-fsanitize=thread", "-o", tmp] + objs + ["-lpthread"], timeout=300)
        for o in objs:
            os.unlink(o)
    elif pr.get("units"):
        # the same source once per unit, linked into one program
        objs = ["%s.%d.o" % (tmp, k) for k in range(pr["units"])]
        with cf.ThreadPoolExecutor(pr["units"]) as ex:
            rs = list(ex.map(lambda k: run(["g++"] + flags + ["-DUNIT=%d" % k] + inc + ["-c", src, "-o", objs[k]], timeout=800),
                             range(pr["units"])))
        bad = [x for x in rs if x.returncode]
        r = bad[0] if bad else run(["g++"] + flags + objs + ["-o", tmp], timeout=300)
        for o in objs:
            if os.path.exists(o):
                os.unlink(o)
        if not bad and r.returncode and "multiple definition of" in r.stderr:
            names = sorted(set(re.findall(r"multiple definition of `([^']*)'", r.stderr)))
            raise LinkViolation("defined in every translation unit that includes the library: " + ", ".join(names)[:2500])
    else:
        r = run(["g++"] + flags + inc + [src, "-o", tmp], timeout=800)
    if r.returncode:
        raise CheckError("building %s failed:\n%s" % (pid, r.stderr[-4000:]))
    os.rename(tmp, exe)
    return exe


def san_env(mode, pr):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:"
                         "detect_stack_use_after_return=0:hard_rss_limit_mb=3500:"
                         "max_allocation_size_mb=3000:strict_init_order=0")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=1"
    e["OMP_NUM_THREADS"] = str(pr.get("threads", 1))
    e["OMP_DYNAMIC"] = "false"
    e["LC_ALL"] = "C"
    return e


def crash_sig(rc, err):
    m = re.search(r"SUMMARY: (Address|Thread|UndefinedBehavior)Sanitizer: ([\w-]+)", err)
    if m and m.group(1) == "Thread":
        return "tsan:" + m.group(2)
    m2 = re.search(r"runtime error: ([^\n]*)", err)
    if m2:
        return "ubsan:" + re.sub(r"[-0-9x a-f]{6,}", "N", m2.group(1))[:60].strip()
    if m:
        return "asan:" + m.group(2)
    if "rss limit" in err or "exhausted" in err:
        return "memory-limit"
    m = re.search(r"Assertion '([^']*)' failed", err)
    if m:
        return "glibcxx-assert:" + m.group(1)[:60]
    if "ERROR SUMMARY" in err and rc == 99:
        m = re.search(r"(Conditional jump|Use of uninitialised|Invalid (?:read|write|free)|Source and dest)", err)
        return "memcheck:" + (m.group(1) if m else "error")
    m = re.search(r"terminate called[^\n]*'([^']*)'", err)
    if m:
        return "terminate:" + m.group(1)
    return "crash:rc=%d" % rc


class Run:
    def __init__(self, prop, programs, tier, seed):
        self.prop, self.programs, self.tier, self.seed = prop, programs, tier, seed
        self.lock = threading.Lock()
        self.viol, self.errors = [], []
        self.counters, self.samples, self.seen = {}, [], set()
        self.per_program = {}
        self.tmp = tempfile.mkdtemp(prefix="vmon-")
        self.wall = 700 if tier == "quick" else 20000

    def base_cmd(self, pr, exe):
        if pr.get("mode") == "memcheck":
            return ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--leak-check=no",
                    "--undef-value-errors=yes", "--num-callers=20", exe]
        return [exe]

    def add_viol(self, pr, fam, idx, sig, msg, desc=""):
        with self.lock:
            self.viol.append(dict(program=program_id(pr), family=fam, idx=idx, sig=sig, msg=msg, desc=desc))

    def fold_out(self, pr, path):
        done = False
        if os.path.exists(path):
            with open(path, errors="replace") as fh:
                for line in fh:
                    try:
                        j = json.loads(line)
                    except ValueError:
                        continue
                    if j["t"] == "viol":
                        self.add_viol(pr, j["family"], j["idx"], j["sig"], j["msg"], j["desc"])
                    elif j["t"] == "done":
                        done = True
                        with self.lock:
                            pc = self.per_program.setdefault(program_id(pr), {})
                            for k, v in j["counters"].items():
                                self.counters[k] = self.counters.get(k, 0) + v
                                if k.startswith("eval:"):
                                    pc[k[5:]] = pc.get(k[5:], 0) + v
                            self.samples += [program_id(pr) + "/" + s for s in j["samples"]]
        hp = path + ".hash"
        if os.path.exists(hp):
            with open(hp, "rb") as fh:
                b = fh.read()
            tag = hash(program_id(pr)) & 0xffff
            with self.lock:
                for i in range(0, len(b) - 7, 8):
                    self.seen.add((tag, b[i:i + 8]))
        return done

    def shard(self, pr, exe, k, n):
        resume, crashes = None, 0
        mode = pr.get("mode", "asan")
        cpu = pr.get("cpu", 20)
        while True:
            out = os.path.join(self.tmp, "%s.%d.%d.out" % (program_id(pr), k, crashes))
            prog = out + ".prog"
            errp = out + ".err"
            cmd = self.base_cmd(pr, exe) + ["--seed", str(self.seed), "--tier", self.tier, "--shard",
                                            "%d/%d" % (k, n), "--out", out, "--progress", prog, "--cpu", str(cpu),
                                            "--scale", str(pr.get("scale", 1) if self.tier == "quick" else pr.get("tscale", 1))]
            if resume:
                cmd += ["--resume", resume[0], str(resume[1])]
            with open(errp, "w") as ef:
                try:
                    rc = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=san_env(mode, pr),
                                        timeout=self.wall, cwd=self.tmp).returncode
                except subprocess.TimeoutExpired:
                    with self.lock:
                        self.errors.append("%s shard %d/%d: wall-clock watchdog fired (inconclusive)" % (program_id(pr), k, n))
                    return
            done = self.fold_out(pr, out)
            if done:
                return
            # abnormal end: attribute it to the case in progress
            with open(errp, errors="replace") as fh:
                err = fh.read()
            try:
                with open(prog) as fh:
                    fam, idx = fh.read().split()
                idx = int(idx)
            except Exception:
                with self.lock:
                    self.errors.append("%s shard %d/%d: no case ran (rc=%s)\n%s" % (program_id(pr), k, n, rc, err[-1500:]))
                return
            crashes += 1
            self.crash(pr, exe, fam, idx, rc, err)
            resume = (fam, idx)
            with self.lock:
                tot = len(self.viol)
            if crashes >= 4 or tot > 40:
                return

    def crash(self, pr, exe, fam, idx, rc, err):
        """A case ended the process: re-run it alone before believing it."""
        r = self.one(pr, exe, fam, idx)
        if r is None:
            if rc == 98:
                with self.lock:
                    self.errors.append("%s %s#%d: hit the CPU limit once but not again (inconclusive)" % (program_id(pr), fam, idx))
            else:
                # not repeatable alone (schedule dependent): report what was seen
                self.add_viol(pr, fam, idx, crash_sig(rc, err) if rc != 98 else "hang", err[-3000:])
            return
        self.add_viol(pr, fam, idx, r["sig"], r["msg"], r.get("desc", ""))

    def one(self, pr, exe, fam, idx, verbose=False):
        """Runs one case alone; None when clean, otherwise its violation."""
        out = os.path.join(self.tmp, "one-%d-%s" % (threading.get_ident(), hashlib.sha1(("%s%s%s%f" % (
            program_id(pr), fam, idx, time.time())).encode()).hexdigest()[:12]))
        cpu = pr.get("cpu", 20) * 2
        cmd = self.base_cmd(pr, exe) + ["--seed", str(self.seed), "--tier", self.tier, "--family", fam, "--idx",
                                        str(idx), "--out", out, "--cpu", str(cpu)]
        try:
            r = run(cmd, env=san_env(pr.get("mode", "asan"), pr), timeout=self.wall, cwd=self.tmp)
        except subprocess.TimeoutExpired:
            return dict(sig="watchdog", msg="wall-clock watchdog")
        desc = ""
        if os.path.exists(out):
            with open(out, errors="replace") as fh:
                for line in fh:
                    j = json.loads(line)
                    if j["t"] == "viol":
                        return dict(sig=j["sig"], msg=j["msg"], desc=j["desc"])
                    if j["t"] == "crash":
                        desc = j["desc"]
        if r.returncode == 0:
            return None
        if r.returncode == 98:
            return dict(sig="hang", msg="did not finish within %d s of CPU time" % cpu, desc=desc)
        e = r.stderr
        key = [l for l in e.splitlines() if "runtime error" in l or "ERROR:" in l or "WARNING: Thread" in l or "Assertion" in l
               or "SUMMARY" in l or "terminate" in l or re.match(r"\s+#\d+ .*include/", l) and "/c++/" not in l
               or "==" in l and pr.get("mode") == "memcheck"]
        return dict(sig=crash_sig(r.returncode, e), msg="\n".join(key)[:3000] or e[-3000:], desc=desc)

    def pins(self, pr, exe):
        r = run([exe, "--list"], timeout=60)
        for line in r.stdout.splitlines():
            nm, q, t = line.split()
            if nm.startswith("pin_"):
                for i in range(int(q)):
                    v = self.one(pr, exe, nm, i)
                    with self.lock:
                        self.counters["eval:" + nm] = self.counters.get("eval:" + nm, 0) + 1
                    if v:
                        self.add_viol(pr, nm, i, v["sig"], v["msg"], v.get("desc", ""))

    def go(self):
        inc_hash = tree_hash(os.path.join(REPO, "include"))
        def job_build(pr):
            try:
                return pr, build(pr, inc_hash)
            except LinkViolation as e:
                self.add_viol(pr, "linking", 0, "multiple-definition", str(e))
                return pr, None
            except (CheckError, subprocess.TimeoutExpired) as e:
                with self.lock:
                    self.errors.append(str(e))
                return pr, None
        with cf.ThreadPoolExecutor(NCPU) as bp, cf.ThreadPoolExecutor(NCPU) as rp:
            futs = []
            order = sorted(self.programs, key=lambda p: -p.get("weight", 1))
            for f in cf.as_completed([bp.submit(job_build, pr) for pr in order]):
                pr, exe = f.result()
                if exe is None:
                    continue
                n = pr.get("shards", NCPU)
                if pr.get("threads", 1) > 1:
                    n = pr.get("shards", 3)
                futs.append(rp.submit(self.pins, pr, exe))
                for k in range(n):
                    futs.append(rp.submit(self.shard, pr, exe, k, n))
            for f in futs:
                try:
                    f.result()
                except Exception as e:      # harness trouble, never a verdict
                    self.errors.append("runner: %r" % (e,))
        shutil.rmtree(self.tmp, ignore_errors=True)


def load_known():
    with open(KNOWN) as fh:
        return json.load(fh)


def matches(k, prop, v):
    if k["property"] != prop:
        return False
    m = k["match"]
    for key in ("program", "family", "idx"):
        if key in m and m[key] != v[key]:
            return False
    return re.search(m.get("sig", ".*"), v["sig"]) is not None


def main(checks):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="only programs whose id contains this")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    chk = checks[a.prop]
    if a.replay:
        with open(a.replay) as fh:
            j = json.load(fh)
        R = Run(a.prop, [], j["tier"], j["seed"])
        pr = [p for p in chk["programs"] if program_id(p) == j["program"]][0]
        try:
            exe = build(pr, tree_hash(os.path.join(REPO, "include")))
            v = R.one(pr, exe, j["family"], j["idx"]) if j["family"] != "linking" else None
        except LinkViolation as e:
            v = dict(sig="multiple-definition", msg=str(e), desc="")
        shutil.rmtree(R.tmp, ignore_errors=True)
        print(json.dumps(v, indent=1) if v else "clean")
        if v:
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return 1 if v else 0
    t0 = time.time()
    progs = [p for p in chk["programs"] if not a.only or a.only in program_id(p)]
    if a.tier == "quick":
        progs = [p for p in progs if not p.get("thorough_only")]
    R = Run(a.prop, progs, a.tier, a.seed)
    R.go()
    known = [k for k in load_known()["known"] if k["property"] == a.prop]
    fresh, seen_known, keys = [], {}, set()
    for v in sorted(R.viol, key=lambda v: (v["program"], v["family"], v["idx"])):
        ks = [k for k in known if matches(k, a.prop, v)]
        if ks:
            seen_known.setdefault(ks[0]["what"], v)
            continue
        key = (v["program"], v["family"], v["sig"])
        if key in keys:
            continue
        keys.add(key)
        fresh.append(v)
    evals = sum(v for k, v in R.counters.items() if k.startswith("eval:"))
    if evals == 0 and not R.errors:
        R.errors.append("nothing was observed")
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    ev = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(R.seen),
            "rule": chk["rule"],
            "samples": [s[:700] for s in pick_samples(R.samples)] or ["(none)"],
            "cases_per_program": R.per_program,
            "observed": {k: v for k, v in sorted(R.counters.items()) if not k.startswith("eval:")},
            "builds": sorted({p.get("mode", "asan") for p in progs}),
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": chk.get("assumptions", []) + [
            "held on the executions listed here, not proved for all inputs",
            "g++ 13 at -O1/-O2 with the sanitizers named in 'builds'; results of the library's -O3 build are assumed to agree"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for w, v in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, w))
    for i, v in enumerate(fresh[:10]):
        p = os.path.join(rdir, "%s-%d.json" % (a.prop, i))
        with open(p, "w") as fh:
            json.dump(dict(property=a.prop, tier=a.tier, seed=a.seed, **v), fh, indent=1)
        print("%s %s#%d [%s]: %s" % (v["program"], v["family"], v["idx"], v["sig"], v["msg"][:600]))
        if v["desc"]:
            print("  input: " + v["desc"][:600])
        print("VIOLATION property=%s replay=%s" % (a.prop, p))
    print("%s: %d cases, %d distinct non-trivial, %.1f s, %d violation(s)" % (
        a.prop, evals, len(R.seen), time.time() - t0, len(fresh)))
    for e in R.errors[:5]:
        print("ERROR: " + e, file=sys.stderr)
    if fresh:
        return 1
    if R.errors:
        return 2
    return 0


def pick_samples(s):
    seen, out = {}, []
    for x in sorted(s):
        k = x.split("#")[0]
        if seen.get(k, 0) < 1:
            seen[k] = seen.get(k, 0) + 1
            out.append(x)
    return out[:40]
