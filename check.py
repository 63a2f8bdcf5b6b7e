#!/usr/bin/env python3
"""Runs the check of one property: builds the monitored harness against /repo's working tree, drives
the workload in parallel shards, collects what the monitors recorded, writes evidence/<ID>.json.

exit 0: held on everything observed; exit 1: VIOLATION line; exit 2: the check itself failed.
usage: check.py <ID> [--thorough] | check.py --setup | check.py --replay FILE
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback, resource

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
EVID = os.path.join(VERIF, "evidence")
sys.path.insert(0, os.path.join(VERIF, "tools"))
JOBS = 8
QUICK_CAP = 420  # s after which a quick check starts no further stage
STABLE = "1.88.0-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"


class HarnessError(Exception):
    pass


def base_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "RUST_BACKTRACE", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUST_BACKTRACE="0")
    return e


VARIANTS = {
    # name: (toolchain, cargo args, extra env, output subdirectory)
    "dev": (STABLE, [], {"RUSTFLAGS": "-Ctarget-cpu=x86-64-v3"}, "debug"),
    "release": (STABLE, ["--release"], {"RUSTFLAGS": "-Ctarget-cpu=x86-64-v3"}, "release"),
    # unoptimised: half the building time, for workloads that watch memory rather than values
    "dev0": (STABLE, [], {"RUSTFLAGS": "-Ctarget-cpu=x86-64-v3", "CARGO_PROFILE_DEV_OPT_LEVEL": "0"}, "debug"),
    "asan": (NIGHTLY, ["--no-default-features", "--target", "x86_64-unknown-linux-gnu"],
             {"RUSTFLAGS": "-Zsanitizer=address", "CARGO_PROFILE_DEV_OPT_LEVEL": "0"}, "x86_64-unknown-linux-gnu/debug"),
    "asan1": (NIGHTLY, ["--no-default-features", "--target", "x86_64-unknown-linux-gnu"],
              {"RUSTFLAGS": "-Zsanitizer=address -Ctarget-cpu=x86-64-v3"}, "x86_64-unknown-linux-gnu/debug"),
    "msan": (NIGHTLY, ["-Zbuild-std", "--no-default-features", "--target", "x86_64-unknown-linux-gnu"],
             {"RUSTFLAGS": "-Zsanitizer=memory", "CARGO_PROFILE_DEV_OPT_LEVEL": "0"}, "x86_64-unknown-linux-gnu/debug"),
    "miri": (NIGHTLY, ["--no-default-features"], {}, None),
    # the Arm vector kernels, with the instructions written out
    "neon": (NIGHTLY, ["-Zbuild-std", "--no-default-features", "--target", "x86_64-unknown-linux-gnu"],
             {"RUSTFLAGS": "-Zsanitizer=address --cfg neon_simd", "__CARGO_TESTS_ONLY_SRC_ROOT": "{target}/rust-src/library"}, "x86_64-unknown-linux-gnu/debug"),
    # the accelerated configurations, linked to stand-ins that check what they are handed
    "accel": (NIGHTLY, ["--no-default-features", "--features", "accel", "--target", "x86_64-unknown-linux-gnu"],
              {"RUSTFLAGS": "-Zsanitizer=address --cfg apple_vdsp --cfg blas -L native={target}/stubs", "CARGO_PROFILE_DEV_OPT_LEVEL": "0"}, "x86_64-unknown-linux-gnu/debug"),
    "accelblas": (NIGHTLY, ["--no-default-features", "--features", "accel", "--target", "x86_64-unknown-linux-gnu"],
                  {"RUSTFLAGS": "-Zsanitizer=address --cfg blas -L native={target}/stubs", "CARGO_PROFILE_DEV_OPT_LEVEL": "0"}, "x86_64-unknown-linux-gnu/debug"),
}


def repo_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, names in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "tests", "assets"))
        files += [os.path.join(root, n) for n in sorted(names) if n.endswith((".rs", ".toml", ".lock"))]
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def freshen(tdir):
    """cargo decides by modification times; we decide by content."""
    os.makedirs(tdir, exist_ok=True)
    stamp = os.path.join(tdir, ".repo-hash")
    now = repo_hash()
    try:
        old = open(stamp).read()
    except OSError:
        old = ""
    if old != now:
        for d in glob.glob(os.path.join(tdir, "**", ".fingerprint", "redstone-ml-*"), recursive=True):
            shutil.rmtree(d, ignore_errors=True)
        for d in glob.glob(os.path.join(tdir, "**", ".fingerprint", "rsv-*"), recursive=True):
            shutil.rmtree(d, ignore_errors=True)
        with open(stamp, "w") as f:
            f.write(now)


def build(variant, bins):
    tc, args, env, sub = VARIANTS[variant]
    tdir = os.path.join(TARGET, variant)
    freshen(tdir)
    e = base_env()
    e.update({k: v.format(target=tdir) for k, v in env.items()})
    if variant.startswith("accel"):
        import accel_stubs
        accel_stubs.make(tdir, asan=True)
    if variant == "neon":
        import neon_std
        neon_std.make(tdir, tc, base_env())
    if variant.startswith("miri"):
        # the interpreter runs what cargo runs; a run of no cases builds everything
        launcher = os.path.join(tdir, "run-" + bins[0])
        with open(launcher, "w") as f:
            f.write("#!/bin/sh\ncd %s && exec cargo +%s miri run -q --offline --target-dir %s %s --bin %s -- \"$@\"\n" % (HARNESS, tc, tdir, " ".join(args), bins[0]))
        os.chmod(launcher, 0o755)
        p = subprocess.run([launcher, "--to", "0"], env=worker_env(variant), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            raise HarnessError("build failed (%s %s):\n%s" % (variant, bins, p.stdout[-6000:]))
        return tdir
    cmd = ["cargo", "+" + tc, "build", "--offline", "--target-dir", tdir] + args
    for b in bins:
        cmd += ["--bin", b]
    p = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise HarnessError("build failed (%s %s):\n%s" % (variant, bins, p.stdout[-6000:]))
    return os.path.join(tdir, sub)


def executable(variant, binary):
    return os.path.join(build(variant, [binary]), ("run-" if variant.startswith("miri") else "") + binary)


CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP}


def limits(cpu):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    return f


def worker_env(variant):
    e = base_env()
    if variant.startswith("miri"):
        # the aliasing model is not settled and not part of the property
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance -Zmiri-disable-stacked-borrows"
        e.update({k: v.format(target=os.path.join(TARGET, variant)) for k, v in VARIANTS[variant][2].items()})
    e["MSAN_OPTIONS"] = "abort_on_error=1:allocator_may_return_null=1"
    e["ASAN_OPTIONS"] = "redzone=64:detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_odr_violation=0"
    return e


def parse(path):
    r = {"last": None, "n": -1, "V": [], "H": [], "S": set(), "E": {}, "X": [], "D": None}
    try:
        with open(path, errors="replace") as f:
            for line in f:
                if not line.endswith("\n"):
                    break   # cut off when the process ended
                k, _, v = line.rstrip("\n").partition(" ")
                if k == "C":
                    r["last"] = int(v)
                    r["n"] += 1
                elif k in ("V", "H", "X"):
                    try:
                        r[k].append(json.loads(v))
                    except ValueError:
                        pass
                elif k == "S":
                    r["S"].add(v)
                elif k == "E":
                    n, _, c = v.rpartition(" ")
                    r["E"][n] = r["E"].get(n, 0) + int(c)
                elif k == "D":
                    a = v.split()
                    r["D"] = (int(a[0]), int(a[1]))
    except OSError:
        pass
    return r


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.evaluations = 0
        self.sigs = set()
        self.events = {}
        self.samples = []
        self.violations = []   # dicts with msg, replay info
        self.notes = []
        self.harness = []
        self.inconclusive = 0
        self.stages = []

    def shard_cmd(self, exe, group, seed, lo, hi, step, deadline, extra, out):
        return [exe, "--group", group, "--seed", str(seed), "--from", str(lo), "--to", str(hi), "--step", str(step),
                "--deadline", str(deadline), "--out", out] + extra

    def stage(self, variant, binary, group, n, deadline, extra=(), jobs=JOBS, label=None):
        """Runs cases 0..n of `group` in `jobs` processes; n is split evenly."""
        if self.tier == "quick" and time.time() - self.t0 > QUICK_CAP:
            self.notes.append("stage %s/%s left out: the stages before it took %d s" % (variant, group, time.time() - self.t0))
            return
        try:
            exe = executable(variant, binary)
        except HarnessError as e:
            if variant in ("neon", "accel", "accelblas") and re.search(r"cannot find (function|type|value|struct)|unresolved import|undefined (symbol|reference)", str(e)):
                self.notes.append("stage %s left out: the kernels use a routine the stand-ins lack: %s" % (variant, str(e)[-600:]))
                self.inconclusive += 1
                return
            raise
        extra = list(extra) + (["--thorough"] if self.tier == "thorough" else [])
        tmp = tempfile.mkdtemp(prefix="rsv-")
        st = {"variant": variant, "group": group, "cases_requested": n}
        ev0 = self.evaluations
        try:
            procs = []
            for k in range(min(jobs, n)):
                out = os.path.join(tmp, "out%d" % k)
                cmd = self.shard_cmd(exe, group, self.seed, k, n, jobs, deadline, extra, out)
                err = open(os.path.join(tmp, "err%d" % k), "wb")
                procs.append((k, out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=worker_env(variant), preexec_fn=limits(0), cwd=tmp), err.name))
                err.close()
            hard = time.time() + deadline + 60
            while procs:
                still = []
                for k, out, p, errf in procs:
                    rc = p.poll()
                    if rc is None:
                        if time.time() > hard:
                            p.kill(); p.wait()
                            r = parse(out)
                            self.absorb(r)
                            if not variant.startswith("miri"):
                                self.confirm_hang(variant, exe, group, r["last"], extra, tmp)
                            continue
                        still.append((k, out, p, errf))
                        continue
                    r = parse(out)
                    self.absorb(r)
                    for v in r["V"]:
                        self.violation(variant, binary, group, v["case"], v["msg"], v.get("desc", ""), extra)
                    for h in r["H"]:
                        self.harness.append(h)
                    ub = miri_error(errf) if variant.startswith("miri") and r["D"] is None else None
                    if ub and ub[0]:
                        self.violation(variant, binary, group, r["last"], ub[1], "", extra)
                    elif ub:
                        self.inconclusive += 1
                        self.notes.append("the interpreter gave up at case %s: %s" % (r["last"], ub[1][:600]))
                    elif rc < 0 and -rc in CRASH:
                        self.confirm_crash(variant, binary, exe, group, r["last"], -rc, extra, tmp, errf)
                        # carry on behind the crashing case
                        if not self.enough() and r["last"] is not None and r["last"] + jobs < n and time.time() < hard - 60:
                            out2 = out + "x"
                            cmd = self.shard_cmd(exe, group, self.seed, r["last"] + jobs, n, jobs, max(1, hard - 60 - time.time()), extra, out2)
                            e2 = open(errf, "wb")
                            still.append((k, out2, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=e2, env=worker_env(variant), preexec_fn=limits(0), cwd=tmp), errf))
                            e2.close()
                    elif rc not in (0, 1):
                        self.inconclusive += 1
                        self.notes.append("shard %d of %s/%s ended with status %d after case %s: %s" % (k, variant, group, rc, r["last"], tail(errf)))
                    elif r["D"] is None:
                        raise HarnessError("shard without a summary: %s" % tail(errf))
                procs = still
                if procs:
                    if self.enough():
                        for _, out, p, _ in procs:
                            p.kill(); p.wait(); self.absorb(parse(out))
                        break
                    time.sleep(0.05)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        st["evaluated"] = self.evaluations - ev0
        st["wall_s"] = round(time.time() - self.t0, 1)
        self.stages.append(st)
        if self.evaluations == ev0 and not self.violations and not variant.startswith("miri"):
            raise HarnessError("stage %s/%s evaluated nothing; %s" % (variant, group, "; ".join(self.notes)[-2000:]))

    def enough(self):
        return len(self.violations) >= 3

    def absorb(self, r):
        if r["D"]:
            self.evaluations += r["D"][0]
        elif r["last"] is not None:
            self.evaluations += r["n"]
            self.notes.append("a shard ended early at case %s" % r["last"])
        self.sigs |= r["S"]
        for k, v in r["E"].items():
            self.events[k] = self.events.get(k, 0) + v
        for x in r["X"]:
            if len(self.samples) < 12:
                self.samples.append(x)

    def violation(self, variant, binary, group, case, msg, desc, extra):
        self.violations.append({"property": self.pid, "variant": variant, "bin": binary, "group": group, "case": case, "seed": self.seed,
                                "extra": list(extra), "msg": msg, "desc": desc})

    def confirm_crash(self, variant, binary, exe, group, case, sig, extra, tmp, errf):
        if case is None:
            self.inconclusive += 1
            return
        first = tail(errf)
        out = os.path.join(tmp, "confirm")
        with open(os.path.join(tmp, "confirm.err"), "wb") as err:
            try:
                p = subprocess.run(self.shard_cmd(exe, group, self.seed, case, case + 1, 1, 1e9, extra + ["--verbose"], out),
                                   stdout=subprocess.DEVNULL, stderr=err, env=worker_env(variant), preexec_fn=limits(120), cwd=tmp, timeout=200)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 0
        r = parse(out)
        txt = tail(os.path.join(tmp, "confirm.err")) or first
        if rc < 0 and -rc in CRASH:
            self.violation(variant, binary, group, case, "the process was killed by %s: %s" % (signal.Signals(-rc).name, txt), "", extra)
        elif r["V"]:
            v = r["V"][0]
            self.violation(variant, binary, group, case, v["msg"], v.get("desc", ""), extra)
        else:
            # memory corruption from an earlier case of the shard: replay the whole prefix
            out = os.path.join(tmp, "confirm2")
            with open(os.path.join(tmp, "confirm2.err"), "wb") as err:
                try:
                    p = subprocess.run(self.shard_cmd(exe, group, self.seed, case % JOBS, case + 1, JOBS, 300, extra, out),
                                       stdout=subprocess.DEVNULL, stderr=err, env=worker_env(variant), preexec_fn=limits(300), cwd=tmp, timeout=320)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = 0
            if rc < 0 and -rc in CRASH:
                self.violation(variant, binary, group, case, "the process was killed by %s (after the cases before it): %s" % (signal.Signals(-rc).name, tail(os.path.join(tmp, "confirm2.err"))), "", extra)
            else:
                self.inconclusive += 1
                self.notes.append("signal %d at case %d not reproduced" % (sig, case))

    def confirm_hang(self, variant, exe, group, case, extra, tmp):
        """A shard that outlived its deadline by a minute sits in one case. Alone, with nothing else
        running, every case takes milliseconds: using up 100 s of CPU time in it is a hang."""
        if case is None:
            self.inconclusive += 1
            return
        try:
            p = subprocess.run(self.shard_cmd(exe, group, self.seed, case, case + 1, 1, 1e9, extra, os.path.join(tmp, "hang")),
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=worker_env(variant), preexec_fn=limits(100), cwd=tmp, timeout=300)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = None
        if rc == -signal.SIGXCPU or rc == -signal.SIGKILL:
            self.violation(variant, os.path.basename(exe), group, case, "the case does not end: 100 s of CPU time used up", "", extra)
        else:
            self.inconclusive += 1
            self.notes.append("case %d outlived the deadline once but ended when run alone" % case)

    def finish(self, spec):
        coverage = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.sigs),
            "rule": spec["rule"],
            "samples": self.samples,
            "events": dict(sorted(self.events.items())),
            "stages": self.stages,
            "inconclusive": self.inconclusive,
            "harness_errors": len(self.harness),
            "notes": self.notes[:20],
        }
        known = known_findings(self.pid)
        fresh = []
        for v in self.violations:
            k = next((f for f in known if matches(f, v)), None)
            if k is None:
                fresh.append(v)
        for f in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": spec.get("level", "exploration"), "coverage": coverage,
              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if fresh:
            rdir = os.path.join(EVID, "replay")
            os.makedirs(rdir, exist_ok=True)
            for i, v in enumerate(fresh[:3]):
                path = os.path.join(rdir, "%s-%d.json" % (self.pid, i))
                with open(path, "w") as f:
                    json.dump(v, f, indent=1)
                print("  %s case %s: %s" % (v["group"], v["case"], v["msg"][:600]))
                if v.get("desc"):
                    print("    " + v["desc"][:800])
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if self.harness:
            h = self.harness[0]
            print("harness error in %d case(s), first: %s at %s (%s)" % (len(self.harness), h["msg"], h["loc"], h["desc"][:500]))
            return 2
        if self.evaluations == 0 or len(self.sigs) < spec.get("min_distinct", 2):
            print("nothing observed")
            return 2
        for name in spec.get("need_events", []):
            if not self.events.get(name):
                print("monitor event %s was never observed" % name)
                return 2
        print("held: %d evaluations, %d distinct, %.1f s; events %s" % (self.evaluations, len(self.sigs), time.time() - self.t0, json.dumps(self.events, sort_keys=True)[:600]))
        return 0


def miri_error(path):
    """(is it undefined behaviour?, text) of the error the interpreter stopped with"""
    try:
        d = open(path, errors="replace").read()
    except OSError:
        return None
    i = d.find("error: Undefined Behavior")
    if i >= 0:
        return True, d[i:i + 1500]
    i = d.find("error: ")
    return (False, d[i:i + 1500]) if i >= 0 else None


def tail(path, n=1500):
    try:
        with open(path, "rb") as f:
            d = f.read()[:20000].decode("utf-8", "replace")
        i = max(d.find("ERROR: AddressSanitizer"), d.find("WARNING: MemorySanitizer"))
        return d[i:i + n] if i >= 0 else d[-n:]
    except OSError:
        return ""


def known_findings(pid):
    """Lines of known-findings.jsonl with "status": "known" for this property."""
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.jsonl")) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("property") == pid and d.get("status") == "known":
                        out.append(d)
    except OSError:
        pass
    return out


def matches(finding, v):
    return finding.get("group") == v["group"] and finding.get("signature", "\0") in (v["msg"] + " " + v.get("desc", ""))


def escape(run):
    import escapes
    tdir = os.path.join(TARGET, "escape")
    freshen(tdir)
    e = base_env()
    e["RUSTFLAGS"] = "-Zsanitizer=address"
    e["ASAN_OPTIONS"] = worker_env("asan")["ASAN_OPTIONS"]
    e["CARGO_TARGET_DIR"] = tdir
    cargo = ["cargo", "+" + NIGHTLY]

    escapes.run(run, tdir, cargo, e, JOBS, HarnessError)


def main():
    import checks
    if sys.argv[1] == "--setup":
        checks.setup(build)
        return 0
    if sys.argv[1] == "--replay":
        v = json.load(open(sys.argv[2]))
        if "case" not in v or v.get("variant") not in VARIANTS:
            print(json.dumps(v, indent=1)); return 1
        exe = executable(v["variant"], v["bin"])
        return subprocess.run([exe, "--group", v["group"], "--seed", str(v["seed"]), "--from", str(v["case"]), "--to", str(v["case"] + 1), "--verbose"] + v["extra"],
                              env=worker_env(v["variant"])).returncode
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = checks.CHECKS[pid]
    run = Run(pid, tier, seed)
    try:
        spec["run"](run)
        if spec.get("custom") == "escape":
            escape(run)
    except Exception as e:
        if not isinstance(e, HarnessError):
            traceback.print_exc()
        print("check error: %s" % e)
        if not run.violations:   # what was seen before the error stands
            return 2
    return run.finish(spec)


if __name__ == "__main__":
    sys.exit(main())
