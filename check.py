#!/usr/bin/env python3
"""Driver for one property: build the harness from /repo's working tree, run its legs,
match what the monitors reported against the committed known findings, write evidence.

    check.py C01                 run the check (tier and seed from VERIF_TIER / VERIF_SEED)
    check.py C01 --replay FILE   re-run the single case a replay file names
    check.py --build             build every harness (setup)
"""
import json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from legs import LEGS, CRATES  # noqa: E402

TARGET = os.path.join(ROOT, "target")
EVID = os.path.join(ROOT, "evidence")


try:
    CPU = set(re.search(r"^flags\s*:(.*)$", open("/proc/cpuinfo").read(), re.M).group(1).split())
except (OSError, AttributeError):
    CPU = set()


def env_base():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "1"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["Z3_SYS_Z3_HEADER"] = "/usr/include/z3.h"
    e.pop("RUSTFLAGS", None)
    return e


def target_dir(cfg):
    return os.path.join(TARGET, cfg.get("flavor", "std"))


def build(crate, log):
    cfg = CRATES[crate]
    e = env_base()
    e["CARGO_TARGET_DIR"] = target_dir(cfg)
    e.update(cfg.get("env", {}))
    src = os.path.join(ROOT, "h", cfg.get("dir", crate))
    cmd = ["cargo"] + cfg.get("cargo_pre", []) + ["build", "--release", "--offline", "--locked"] + cfg.get("cargo", [])
    t = time.time()
    with open(log, "w") as f:
        r = subprocess.run(cmd, cwd=src, env=e, stdout=f, stderr=subprocess.STDOUT)
    if r.returncode != 0 and "--locked was passed" in open(log, errors="replace").read():
        # the tree under test changed its manifests: resolve again, keeping the committed lock file
        lock = os.path.join(src, "Cargo.lock")
        keep = open(lock, "rb").read()
        try:
            with open(log, "w") as f:
                r = subprocess.run([a for a in cmd if a != "--locked"], cwd=src, env=e, stdout=f, stderr=subprocess.STDOUT)
        finally:
            open(lock, "wb").write(keep)
    dt = time.time() - t
    if r.returncode != 0:
        sys.stdout.write(open(log).read()[-6000:])
        print(f"ERROR: harness {crate} does not build ({dt:.0f}s)")
        sys.exit(2)
    sub = cfg.get("triple", "")
    return os.path.join(target_dir(cfg), sub, "release", cfg.get("bin", "h_" + crate)), dt


def run_proc(binary, args, env, timeout, logpath):
    with open(logpath, "w") as f:
        p = subprocess.Popen([binary] + args, env=env, stdout=f, stderr=subprocess.STDOUT,
                             cwd=env["VK_SCRATCH"], start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
            timed = False
        except subprocess.TimeoutExpired:
            rc, timed = None, True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    return rc, timed


def norm_crash(rc, log):
    txt = open(log, errors="replace").read()
    m = re.search(r"(AddressSanitizer|ThreadSanitizer|LeakSanitizer|MemorySanitizer): ([a-zA-Z\- ]+)", txt)
    if m:
        frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", txt)
        keep = [f for f in frames if "logicaffeine" in f][:2]
        return "sanitizer:%s:%s" % (m.group(2).strip().replace(" ", "-"), "|".join(keep))
    if "has overflowed its stack" in txt:
        return "crash:stack-overflow"
    if "memory allocation of" in txt:
        return "crash:allocation-failure"
    name = signal.Signals(-rc).name if rc is not None and rc < 0 else f"exit{rc}"
    return "crash:" + name


def run_leg(prop, i, leg, seed, tier, scratch, only=None):
    """Returns (result dict, extra violations)."""
    crate = leg["crate"]
    binary, dt = build(crate, os.path.join(scratch, f"build-{crate}.log"))
    out = os.path.join(scratch, f"out{i}.json")
    cur = os.path.join(scratch, f"cur{i}")
    if os.path.exists(cur):
        os.remove(cur)
    log = os.path.join(scratch, f"run{i}.log")
    e = env_base()
    e.update(CRATES[crate].get("run_env", {}))
    e.update(leg.get("env", {}))
    wd = os.path.join(scratch, f"wd{i}")
    os.makedirs(wd, exist_ok=True)
    e.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VK_OUT=out, VK_CUR=cur, VK_SCRATCH=wd,
             VK_VERIF=ROOT, VK_TARGET=TARGET, TMPDIR=wd, RUST_BACKTRACE="0", RUST_MIN_STACK=str(64 << 20))
    budget = leg.get("budget", (150, 1500))[0 if tier == "quick" else 1]
    e["VK_BUDGET"] = str(budget)
    if only:
        e["VK_ONLY"] = only
    args = leg["args"]
    skip = []
    extra = []
    while True:
        if os.path.exists(out):
            os.remove(out)
        rc, timed = run_proc(binary, args, e, budget + leg.get("grace", 180), log)
        if os.path.exists(out) and not timed and rc == 0:
            res = json.load(open(out))
            break
        if timed:
            res = {"harness_errors": [f"leg {args} exceeded {budget + leg.get('grace', 180)} s"], "inconclusive": {"timeout": 1}}
            break
        if rc == -9:
            res = {"harness_errors": ["leg killed (SIGKILL), inconclusive"]}
            break
        if rc is not None and rc > 0:
            # an orderly non-zero exit is the harness's own failure, never a verdict
            res = {"harness_errors": [f"leg {args} exited {rc}: " + open(log, errors="replace").read()[-1500:]]}
            break
        # The process died. Confirm each case that was in flight, alone.
        marks = []
        if os.path.exists(cur):
            for line in open(cur, errors="replace"):
                line = line.strip("\0 \n")
                if "#" in line:
                    marks.append(line)
        confirmed = False
        for m in marks:
            e2 = dict(e, VK_ONLY=m)
            if os.path.exists(out):
                os.remove(out)
            clog = os.path.join(scratch, f"confirm{i}.log")
            sigs = set()
            for _ in range(2):
                rc2, t2 = run_proc(binary, args, e2, 300, clog)
                if t2 or rc2 == -9 or (rc2 == 0 and os.path.exists(out)):
                    sigs.add(None)
                    break
                sigs.add(norm_crash(rc2, clog))
            if len(sigs) == 1 and None not in sigs:
                sig = sigs.pop()
                tail = open(clog, errors="replace").read()[-3000:]
                extra.append({"sig": f"{sig}:{m.rsplit('#', 1)[0]}", "detail": f"process died running {m}: {tail}", "case": m, "data": None})
                confirmed = True
                break
        if confirmed:
            res = {"harness_errors": [], "note": "process died; case confirmed alone"}
            break
        if len(skip) >= 1:
            res = {"harness_errors": [f"process died rc={rc} and no single case reproduces it: "
                                      + open(log, errors='replace').read()[-1500:]]}
            break
        skip.append(1)  # one retry of the whole leg
    res["build_s"] = round(dt, 1)
    res.setdefault("violations", [])
    res["violations"] += extra
    shutil.rmtree(wd, ignore_errors=True)
    return res


def main():
    if sys.argv[1] == "--build":
        os.makedirs(TARGET, exist_ok=True)
        names = sys.argv[2:] or [c for c in CRATES if not CRATES[c].get("lazy")]
        for c in names:
            b, dt = build(c, os.path.join(TARGET, f"build-{c}.log"))
            print(f"built {c} in {dt:.0f}s", flush=True)
        return 0
    prop = sys.argv[1]
    only = None
    replay_leg = None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--replay" in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        only, replay_leg, seed, tier = r["case"], r["leg"], r["seed"], r["tier"]
    legs = LEGS[prop]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    scratch = os.path.join(TARGET, "scratch", f"{prop}-{os.getpid()}")
    os.makedirs(scratch, exist_ok=True)
    try:
        return check(prop, legs, seed, tier, scratch, only, replay_leg, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, legs, seed, tier, scratch, only, replay_leg, t0):
    results = []
    for i, leg in enumerate(legs["legs"]):
        if leg.get("tier") and leg["tier"] != tier:
            continue
        if replay_leg is not None and i != replay_leg:
            continue
        if leg.get("cpu") and not set(leg["cpu"]) <= CPU:
            print(f"leg {leg['args']} of {leg['crate']} skipped: this processor lacks {leg['cpu']}")
            continue
        r = run_leg(prop, i, leg, seed, tier, scratch, only)
        r["leg"] = i
        r["args"] = leg["args"]
        results.append(r)
    known = [k for k in json.load(open(os.path.join(ROOT, "known-findings.json")))["findings"] if k["property"] == prop]
    ksig = {k["sig"]: k for k in known if k.get("status", "open") == "open"}
    new, hit = [], {}
    for r in results:
        for v in r["violations"]:
            v["leg"] = r["leg"]
            if v["sig"] in ksig:
                hit[v["sig"]] = v
            else:
                new.append(v)
    errors = [x for r in results for x in r.get("harness_errors", [])]
    seen = set()
    lines = []
    for v in new:
        if v["sig"] in seen:
            continue
        seen.add(v["sig"])
        rp = os.path.join(EVID, "replay", f"{prop}-{len(seen)}.json")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump({"property": prop, "seed": seed, "tier": tier, "leg": v["leg"], "case": v["case"],
                   "sig": v["sig"], "detail": v["detail"], "data": v.get("data")}, open(rp, "w"), indent=1)
        lines.append((f"VIOLATION property={prop} replay={rp}", v))
    cov = {
        "evaluations": sum(r.get("evaluations", 0) for r in results),
        "distinct_nontrivial": sum(r.get("distinct_nontrivial", 0) for r in results),
        "rule": " | ".join(x for r in results for x in r.get("rules", [])),
        "samples": [s for r in results for s in r.get("samples", [])][:40],
        "legs": [{"args": r["args"], "groups": r.get("groups"), "observed": r.get("observed"),
                  "inconclusive": r.get("inconclusive"), "errors": r.get("harness_errors"),
                  "wall_s": r.get("wall_s"), "build_s": r.get("build_s")} for r in results],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": legs["level"], "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(new),
          "known_findings_observed": sorted(hit), "assumptions": legs.get("assumptions", [])}
    if only is None:
        with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k, v in hit.items():
        print(f"KNOWN-FINDING: property={prop} {ksig[k]['what']}")
    if lines:
        for line, v in lines[:12]:
            print(line)
            print(f"  sig: {v['sig']}\n  case: {v['case']}\n  {v['detail'][:1500]}")
        return 1
    if errors:
        for x in errors[:8]:
            print(f"ERROR: {prop}: {x}")
        return 2
    print(f"OK property={prop} tier={tier} seed={seed} evaluations={cov['evaluations']} "
          f"distinct={cov['distinct_nontrivial']} wall={ev['wall_s']}s")
    for r in results:
        if r.get("inconclusive"):
            print("  inconclusive:", r["inconclusive"])
    return 0


if __name__ == "__main__":
    sys.exit(main())
