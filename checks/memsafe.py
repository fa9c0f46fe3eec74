"""Memory safety of everything the other monitors drive: their workloads under AddressSanitizer and under valgrind's memcheck.

Only memory errors count here; answers are judged by the checks of the properties the workloads belong to.
"""
import os, re, time

JOBS = [("stat", "C01"), ("stat", "C02"), ("stat", "C03"), ("cch", "C04"), ("cch", "C05"), ("cch", "C06"), ("cch", "C07"), ("cch", "C08"),
        ("ext", "C09"), ("ext", "C10"), ("ext", "C11"), ("ext", "C12"), ("td", "C13"), ("td", "C14"), ("td", "C15"), ("td", "C16"),
        ("catchup", "C17"), ("catchup", "C18"), ("ds", "C19"), ("ds", "C20"), ("misc", "C21"), ("misc", "C22"), ("misc", "C23"), ("misc", "C24"), ("tdtraffic", "C25")]
REL = ("td", "catchup", "misc", "tdtraffic")


# padding of the ranges stored by the multi metric potentials, see DESIGN.md (KF4)
KNOWN = ("finding:multi-metric-padding", re.compile(r"Syscall param write\(buf\) points to uninitialised"), re.compile(r"MultiMetricPreprocessed|TRange<u32>, u16, bool"))


def memory_error(text, agg):
    for l in text.splitlines():
        if re.search(r"ERROR: AddressSanitizer: (?!requested allocation|out of memory|allocat)", l):
            return l.strip()
    # memcheck separates its reports by lines with nothing but the process id
    for block in re.split(r"(?m)^==\d+== *$", text):
        m = re.search(r"==\d+== +(Invalid (read|write|free)|Conditional jump|Use of uninit|Mismatched free|Source and destination overlap|Syscall param|Process terminating with default action of signal (11|7|4)).*", block)
        if not m:
            continue
        if KNOWN[1].search(m.group(0)) and KNOWN[2].search(block):
            agg["counters"][KNOWN[0]] = agg["counters"].get(KNOWN[0], 0) + 1
            continue
        return m.group(0).strip() + " " + " < ".join(re.findall(r"(?:at|by) 0x\w+: (.{1,80})", block)[:5])
    return None


def run(prop, tier, seed, tmp, agg, ph, runmod):
    tool = ph["tool"]
    bins = sorted({b for b, _ in JOBS})
    if tool == "asan":
        d = runmod.build(bins, "asanrel")
        where = {b: d for b in bins}
    else:
        a = runmod.build([b for b in bins if b not in REL])
        b_ = runmod.build([b for b in bins if b in REL], "rel")
        where = {b: b_ if b in REL else a for b in bins}
    t0 = time.time()
    todo = [(b, p, k) for k in range(ph.get("rounds", 1)) for b, p in JOBS]
    running = []
    found = None
    per = ph["time_ms"]
    executed = {}
    ncpu = len(os.sched_getaffinity(0))
    note = []

    def finish(w, b, p):
        nonlocal found
        text = w.stderr_tail(200000)
        kind, val = w.verdict
        bad = memory_error(text, agg)
        if bad is None and kind == "exit" and val in (-11, -7):
            bad = "process ended by signal %d" % -val
        sub = runmod.new_agg()
        v = runmod.collect(w, sub)
        executed[p] = executed.get(p, 0) + sub["executed"]
        agg["executed"] += sub["executed"]
        agg["evaluations"] += sub["evaluations"]
        agg["distinct"].update(sub["distinct"])
        agg["counters"]["%s-cases" % tool] = agg["counters"].get("%s-cases" % tool, 0) + sub["executed"]
        agg["counters"]["%s-%s" % (tool, p)] = agg["counters"].get("%s-%s" % (tool, p), 0) + sub["executed"]
        for s in sub["samples"][:1]:
            if len(agg["samples"]) < 8:
                agg["samples"].append("%s under %s, %s" % (p, tool, s))
        if bad and found is None:
            at = re.findall(r"(?:#\d+ 0x\w+ in|(?:at|by) 0x\w+:) (\S+)", text)
            found = {"kind": "crash", "custom": "memsafe", "case": w.progress(), "message": "%s while running the workload of %s: %s; at %s" % (tool, p, bad[:300], at[:6]), "cmd": w.cmd,
                     "env": w.envx, "bin": b, "flavour": tool}
        elif v is not None:
            note.append("%s: %s" % (p, v["message"][:120]))

    while (todo or running) and found is None:
        while todo and len(running) < 8:
            b, p, k = todo.pop(0)
            threads = [2, 1, 3, 4][(k + len(executed)) % 4]
            e = {"RAYON_NUM_THREADS": str(min(threads, ncpu))}
            args = ["--worker", "0", "--workers", "1", "--max-cases", str(ph["cases"]), "--time-ms", str(per), "--start", str(k * 1000000)]
            if tool == "asan":
                e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1"
            w = runmod.Worker(where[b], {"bin": b}, p, tier, seed, tmp, "%s_%s_%d" % (tool, p, k), args, e, noas=True,
                              prefix=["valgrind", "-q", "--error-exitcode=9", "--fair-sched=yes", "--max-stackframe=8000000"] if tool == "memcheck" else [])
            w.born = time.time()
            running.append((w, b, p))
        time.sleep(0.05)
        for x in list(running):
            w, b, p = x
            if w.poll(600, 600) or time.time() - w.born > per / 1000 + 60:
                if not w.verdict:
                    # a single slow case: nothing to judge
                    w.kill()
                    w.verdict = ("stopped", None)
                running.remove(x)
                finish(w, b, p)
    for w, b, p in running:
        w.kill()
    agg["phases"].append({"phase": tool, "executed": sum(executed.values()), "per_workload": executed, "ended_early": note[:20], "wall_s": round(time.time() - t0, 2)})
    return found
