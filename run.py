#!/usr/bin/env python3
"""Orchestrator of the runtime monitors.

run.py <PROPERTY> <quick|thorough>      run a check
run.py --replay <file>                  re-execute a recorded violation

Exit codes: 0 held on everything explored, 1 violation (VIOLATION line), 2 inconclusive / error of the check.
"""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from config import CHECKS  # noqa

TOOL = "/root/.rustup/toolchains/nightly-2023-02-01-x86_64-unknown-linux-gnu/bin"


def env(extra=None):
    e = dict(os.environ)
    for k in ("TDCCH_APPROX_THRESHOLD", "TDCCH_APPROX", "TRAFFIC_MAX_QUERY_TIME", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(HOME="/root", PATH="/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", ""), RUSTUP_TOOLCHAIN="nightly-2023-04-15",
             RUSTC=TOOL + "/rustc", RUSTDOC=TOOL + "/rustdoc", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", CARGO_NET_OFFLINE="true",
             CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=os.path.join(V, "target"))
    e.update(extra or {})
    return e


def die(msg, code=2):
    print("INCONCLUSIVE: " + msg)
    sys.exit(code)


def build(bins, flavour="plain"):
    """build harness binaries from /repo's working tree; returns directory with the binaries"""
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(V, "harness", "Cargo.toml")]
    extra = {}
    out = os.path.join(V, "target", "debug")
    if flavour == "asan":
        extra = {"RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers=yes", "CARGO_TARGET_DIR": os.path.join(V, "target", "asan")}
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
        out = os.path.join(V, "target", "asan", "x86_64-unknown-linux-gnu", "debug")
    elif flavour == "asanrel":
        extra = {"RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers=yes", "CARGO_TARGET_DIR": os.path.join(V, "target", "asan")}
        cmd += ["--target", "x86_64-unknown-linux-gnu", "--profile", "rel"]
        out = os.path.join(V, "target", "asan", "x86_64-unknown-linux-gnu", "rel")
    elif flavour == "seq":
        extra = {"CARGO_TARGET_DIR": os.path.join(V, "target", "seq")}
        cmd += ["--features", "seq"]
        out = os.path.join(V, "target", "seq", "debug")
    elif flavour == "apx":
        # travel time functions are approximated as soon as they have eight points
        extra = {"CARGO_TARGET_DIR": os.path.join(V, "target", "apx"), "TDCCH_APPROX_THRESHOLD": "8"}
        cmd += ["--profile", "rel"]
        out = os.path.join(V, "target", "apx", "rel")
    elif flavour == "ws":
        # the command line tools and the server themselves, driven by checks/conv
        extra = {"CARGO_TARGET_DIR": os.path.join(V, "target", "ws"), "CARGO_PROFILE_DEV_DEBUG": "0"}
        cmd = ["cargo", "build", "--locked", "--offline", "--manifest-path", "/repo/Cargo.toml", "-p", "server", "-p", "conversion", "--bins"]
        out = os.path.join(V, "checks")
        bins = []
    elif flavour == "tools":
        # the programs which prepare data and run experiments; floating point functions, hence without debug assertions
        extra = {"CARGO_TARGET_DIR": os.path.join(V, "target", "tools"), "CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "true"}
        cmd = ["cargo", "build", "--locked", "--offline", "--manifest-path", "/repo/Cargo.toml"]
        for p in ("utils", "conversion", "cchpp", "tdpot", "catchup", "chpot"):
            cmd += ["-p", p]
        for b in open(os.path.join(V, "checks", "tools.txt")).read().split():
            cmd += ["--bin", b]
        out = os.path.join(V, "checks")
        bins = []
    elif flavour == "convh":
        cmd[4] = os.path.join(V, "convh", "Cargo.toml")
    elif flavour == "rel":
        cmd += ["--profile", "rel"]
        out = os.path.join(V, "target", "rel")
    for b in bins:
        cmd += ["--bin", b]
    p = subprocess.run(cmd, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-6000:])
        die("harness does not build against /repo's current tree")
    return out


def cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            x = f.read().rsplit(")", 1)[1].split()
        return (int(x[11]) + int(x[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return None


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if not os.environ.get("VH_NO_AS"):
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def limits_noas():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Worker:
    def __init__(self, bindir, spec, prop, tier, seed, tmp, tag, args, envx, noas=False, prefix=()):
        self.tag = tag
        self.out = os.path.join(tmp, "out_%s.json" % tag)
        self.prog = os.path.join(tmp, "prog_%s" % tag)
        self.errf = os.path.join(tmp, "err_%s" % tag)
        scratch = os.path.join(tmp, "scratch_%s" % tag)
        os.makedirs(scratch, exist_ok=True)
        self.envx = envx
        self.cmd = list(prefix) + [os.path.join(bindir, spec["bin"]), "--prop", prop, "--seed", str(seed), "--tier", tier, "--out", self.out,
                    "--progress", self.prog, "--scratch", scratch] + args
        self.err = open(self.errf, "wb")
        self.p = subprocess.Popen(self.cmd, env=env(envx), stdout=subprocess.DEVNULL, stderr=self.err,
                                  preexec_fn=limits_noas if noas else limits, cwd=scratch, start_new_session=True)
        self.last = None
        self.mark_cpu = 0.0
        self.mark_t = time.time()
        self.verdict = None

    def progress(self):
        try:
            with open(self.prog) as f:
                return int(f.read().split()[0])
        except (OSError, ValueError, IndexError):
            return None

    def poll(self, hang_cpu, hang_wall):
        if self.verdict:
            return True
        rc = self.p.poll()
        if rc is not None:
            self.verdict = ("exit", rc)
            return True
        cur = self.progress()
        c = cpu_of(self.p.pid) or 0.0
        if cur != self.last:
            self.last, self.mark_cpu, self.mark_t = cur, c, time.time()
        elif c - self.mark_cpu > hang_cpu:
            self.kill()
            self.verdict = ("hang", "case %s consumed more than %d CPU seconds without finishing" % (cur, hang_cpu))
            return True
        elif time.time() - self.mark_t > hang_wall and c - self.mark_cpu < 2.0:
            self.kill()
            self.verdict = ("hang", "case %s made no progress for %d s without using the CPU (deadlock)" % (cur, hang_wall))
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def stderr_tail(self, n=3000):
        self.err.flush()
        with open(self.errf, "rb") as f:
            return f.read()[-n:].decode("utf8", "replace")


def run_workers(workers, hang_cpu, hang_wall, deadline):
    pending = list(workers)
    while pending:
        time.sleep(0.05)
        pending = [w for w in pending if not w.poll(hang_cpu, hang_wall)]
        if time.time() > deadline:
            for w in pending:
                w.kill()
                w.verdict = ("timeout", None)
            break
        if any(w.verdict and (w.verdict[0] == "hang" or (w.verdict[0] == "exit" and w.verdict[1] not in (0,))) for w in workers):
            # give the others a moment, then stop: a violation was observed
            t = time.time() + 2
            while pending and time.time() < t:
                time.sleep(0.05)
                pending = [w for w in pending if not w.poll(hang_cpu, hang_wall)]
            for w in pending:
                w.kill()
                w.verdict = ("stopped", None)
            break


def sanitizer_summary(text):
    for l in text.splitlines():
        if "ERROR: AddressSanitizer" in l or "SUMMARY: AddressSanitizer" in l or "WARNING: ThreadSanitizer" in l:
            return l.strip()
    return None


def load_known():
    """entries: KNOWN property=<id> match=<regex> :: <what>; lines starting with 'fixed:' suppress nothing"""
    res = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN property=(\w+) match=(\S+) :: (.*)", l.strip())
            if m:
                res.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return res


def collect(w, agg):
    """read the event summary of a worker; returns violation or None"""
    kind, val = w.verdict
    data = None
    try:
        data = json.load(open(w.out))
    except (OSError, ValueError):
        pass
    if data:
        agg["executed"] += data["executed"]
        agg["evaluations"] += data["evaluations"]
        for k, v in data["counters"].items():
            agg["counters"][k] = agg["counters"].get(k, 0) + v
        agg["distinct"].update(data["distinct"])
        agg["distinct_floor"] = max(agg["distinct_floor"], data["distinct_total"])
        agg["samples"] += data["samples"]
        agg["slowest_ms"] = max(agg["slowest_ms"], data["slowest_ms"])
    if kind == "exit" and val == 0 and data:
        return None
    if kind == "exit" and val == 1 and data and "violation" in data:
        return {"case": data["violation"]["case"], "message": data["violation"]["message"], "kind": "oracle"}
    if kind == "exit" and (val < 0 or val not in (0, 1, 3)):
        t = w.stderr_tail(20000)
        s = sanitizer_summary(t)
        if s is None and val > 0 and not re.search(r"memory allocation|overflow|panicked", t):
            return {"case": w.progress(), "message": "worker exited with %d: %s" % (val, t[-500:]), "kind": "error"}
        return {"case": w.progress(), "message": "process died (%s) %s" % ("signal %d" % -val if val < 0 else "exit %d" % val, s or t[-400:]), "kind": "crash"}
    if kind == "hang":
        return {"case": w.progress(), "message": val, "kind": "hang"}
    if kind == "timeout":
        return None if data else {"case": w.progress(), "message": "watchdog", "kind": "timeout"}
    if kind == "stopped":
        return None
    return {"case": w.progress(), "message": "harness error rc=%s: %s" % (val, w.stderr_tail(800)), "kind": "error"}


def phase(spec, prop, tier, seed, tmp, agg, ph, name):
    """one monitored workload; returns (violation, cmdline) or None"""
    flavour = ph.get("flavour", "plain")
    bindir = build([ph.get("bin", spec["bin"])], flavour)
    nw = ph.get("workers", 8)
    # the engine pins customization threads to CPUs, so never ask for more threads than CPUs
    ncpu = len(os.sched_getaffinity(0))
    threads = [min(t, ncpu) for t in ph.get("threads", [1, 2, 4, 3, 8, 2, 5, 1])]
    sp = dict(spec, bin=ph.get("bin", spec["bin"]))
    hang_cpu, hang_wall = ph.get("hang_cpu", 90), ph.get("hang_wall", 180)
    ws = []
    t0 = time.time()
    for i in range(nw):
        e = {"RAYON_NUM_THREADS": str(threads[i % len(threads)])}
        if flavour == "asan":
            e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1"
        e.update(ph.get("env", {}))
        args = ["--worker", str(i), "--workers", str(nw), "--max-cases", str(ph["cases"]), "--time-ms", str(ph["time_ms"]), "--start", str(ph.get("start", 0))]
        ws.append(Worker(bindir, sp, prop, tier, seed, tmp, "%s_%d" % (name, i), args, e, noas=flavour == "asan"))
    run_workers(ws, hang_cpu, hang_wall, t0 + ph["time_ms"] / 1000 + max(300, hang_wall + 30))
    found = None
    errors = []
    before = agg["executed"]
    for w in ws:
        v = collect(w, agg)
        if v and v["kind"] in ("error", "timeout"):
            errors.append(v)
        elif v and found is None:
            v["env"] = {k: w.envx[k] for k in w.envx}
            v["cmd"] = w.cmd
            found = v
    agg["phases"].append({"phase": name, "flavour": flavour, "workers": nw, "rayon_threads": threads[:nw], "executed": agg["executed"] - before,
                          "wall_s": round(time.time() - t0, 2)})
    if found and found["kind"] in ("hang", "crash"):
        # confirm in a fresh process before believing it
        w = Worker(bindir, sp, prop, tier, seed, tmp, name + "_confirm", ["--case", str(found["case"]), "--repeat", "3"], found["env"], noas=flavour == "asan")
        run_workers([w], hang_cpu * 2, hang_wall, time.time() + 800)
        v = collect(w, dict(agg, counters={}, distinct=set(), samples=[]))
        if v is None or v["kind"] in ("error", "timeout"):
            if found["kind"] == "hang":
                return {"kind": "error", "message": "unconfirmed: " + found["message"]}
            found["message"] += " (not reproduced in isolation)"
        else:
            found["message"] += " (reproduced: %s)" % v["message"][:200]
    if found:
        found["flavour"] = flavour
        found["bin"] = sp["bin"]
        return found
    if errors:
        return {"kind": "error", "message": errors[0]["message"]}
    return None


def write_evidence(prop, spec, tier, seed, agg, wall, violations):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": agg["evaluations"], "distinct_nontrivial": max(len(agg["distinct"]), agg["distinct_floor"]),
                       "rule": spec["rule"], "samples": agg["samples"][:8] or ["none"], "cases_executed": agg["executed"],
                       "observed_events": agg["counters"], "phases": agg["phases"], "slowest_case_ms": agg["slowest_ms"]},
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations}
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        if r.get("custom"):
            print(json.dumps(r, indent=1))
            sys.exit(1)
        bindir = build([r["bin"]], r.get("flavour", "plain"))
        tmp = tempfile.mkdtemp(prefix="vh_")
        try:
            w = Worker(bindir, r, r["property"], r["tier"], r["seed"], tmp, "replay", ["--case", str(r["case"]), "--repeat", "10"], r["env"], noas=r.get("flavour") == "asan")
            run_workers([w], 180, 300, time.time() + 800)
            agg = new_agg()
            v = collect(w, agg)
            print(v["message"] if v else "not reproduced")
            sys.exit(1 if v else 0)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vh_%s_" % prop)
    agg = new_agg()
    violation = None
    error = None
    try:
        for name, ph in spec[tier].items():
            if "custom" in ph:
                import importlib
                mod = importlib.import_module("checks." + ph["custom"])
                r = mod.run(prop, tier, seed, tmp, agg, ph, sys.modules[__name__])
            else:
                r = phase(spec, prop, tier, seed, tmp, agg, ph, name)
            if r and r["kind"] == "error":
                error = r
            elif r:
                violation = r
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    known = [k for k in load_known() if k[0] == prop]
    for e in agg["counters"]:
        # fixed inputs which still show a defect: only quiet if that very defect is listed
        if e.startswith("finding:") and not violation and not any(k[1].search(e) for k in known):
            violation = {"case": 0, "message": "unlisted finding " + e, "kind": "finding", "env": {}, "bin": spec["bin"], "flavour": "rel"}
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    if violation and any(k[1].search(violation["message"]) for k in known):
        violation = None
    write_evidence(prop, spec, tier, seed, agg, time.time() - t0, 1 if violation else 0)
    if violation:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        path = os.path.join(V, "replays", "%s-%s-%d.json" % (prop, tier, seed))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, **{k: v for k, v in violation.items()}}, f, indent=1)
        print("observed: " + violation["message"][:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if error:
        die(error["message"][:2000])
    missing = [e for e in spec.get("must_observe", []) if agg["counters"].get(e, 0) == 0]
    if agg["executed"] == 0 or missing:
        die("monitors observed too little: executed=%d, never observed %s" % (agg["executed"], missing))
    print("held: property=%s %d cases, %d oracle evaluations, %d distinct non-trivial, %.1fs" % (
        prop, agg["executed"], agg["evaluations"], max(len(agg["distinct"]), agg["distinct_floor"]), time.time() - t0))


def new_agg():
    return {"executed": 0, "evaluations": 0, "counters": {}, "distinct": set(), "distinct_floor": 0, "samples": [], "slowest_ms": 0, "phases": []}


if __name__ == "__main__":
    main()
