"""Containers under Miri, the undefined behaviour interpreter (aliasing, alignment, allocation layouts, uninitialised memory).

The engine's pinned compiler has no Miri, so the self-contained container modules are included from /repo's working tree by path
and driven by the same model based monitor as natively. When a change makes the modules depend on more of the engine they no
longer build on their own: then this phase is skipped (recorded in the evidence), the native and ASan phases still judge.
"""
import os, re, subprocess, time


def run(prop, tier, seed, tmp, agg, ph, runmod):
    e = dict(os.environ)
    for k in ("RUSTC", "RUSTDOC", "RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(HOME="/root", PATH="/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", ""), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=os.path.join(runmod.V, "target", "miri"), MIRIFLAGS="-Zmiri-disable-isolation")
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--manifest-path", os.path.join(runmod.V, "miri", "Cargo.toml"), "--", ph["group"]]
    t0 = time.time()
    p = subprocess.run(cmd + ["1", "0"], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    if "done" not in p.stdout:
        agg["phases"].append({"phase": "miri", "skipped": "containers do not build on their own: " + p.stderr[-300:]})
        return None
    procs = []
    n = ph.get("workers", 8)
    for i in range(n):
        procs.append((seed * 1000 + i, subprocess.Popen(cmd + [str(seed * 1000 + i), str(ph["cases"])], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
    res = None
    cases = 0
    cut = 0
    deadline = t0 + ph["time_ms"] / 1000
    for s, p in procs:
        try:
            out, err = p.communicate(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            cut += 1
        seen = len(re.findall(r"^case ", out, re.M))
        cases += seen
        for m in re.finditer(r"^event (\S+) (\d+)", out, re.M):
            agg["counters"]["miri-" + m.group(1)] = agg["counters"].get("miri-" + m.group(1), 0) + int(m.group(2))
        bad = re.search(r"^oracle: .*", out, re.M) or re.search(r"^error: (Undefined Behavior|memory leaked).*", err, re.M) or re.search(r"panicked at .*", err)
        if bad and res is None:
            where = re.findall(r"--> (\S+)", err)
            res = {"kind": "crash", "custom": "miri", "case": seen - 1, "message": "Miri: %s at %s" % (bad.group(0)[:400], where[:1]), "cmd": cmd + [str(s), str(seen)],
                   "env": {}, "bin": "miri", "flavour": "miri"}
    agg["executed"] += cases
    agg["evaluations"] += cases
    agg["phases"].append({"phase": "miri", "workers": n, "executed": cases, "cut_by_time": cut, "wall_s": round(time.time() - t0, 2)})
    return res
