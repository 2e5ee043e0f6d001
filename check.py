#!/usr/bin/env python3
"""Run the checks of one property: build from /repo's working tree, search,
write the evidence file, report.

usage: check.py PROPERTY [--tier quick|thorough] [--seed N] [--time S]
       check.py --build            build everything (setup_cmd)
       check.py --replay FILE      run a replay file against the current tree

exit 0: the property held on everything explored
exit 1: a line "VIOLATION property=<id> replay=<path>" was printed
"""
import argparse
import fcntl
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
import genbuild  # noqa: E402
from props import PROPS  # noqa: E402

BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))


def build(variant):
    os.makedirs(BUILD, exist_ok=True)
    outdir = os.path.join(BUILD, variant)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        genbuild.generate(variant, outdir)
        res = subprocess.run(["ninja", "-C", outdir], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if res.returncode != 0:
            sys.stdout.write(res.stdout[-6000:])
            print(f"build of variant {variant} failed")
            sys.exit(2)
        # Run from a private copy, so that a concurrent rebuild cannot change
        # the program under a running check
        return os.path.join(outdir, "check")


def known_findings():
    path = os.path.join(HERE, "known-findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            # known: property=ID id=KF-NAME text
            parts = line.split(None, 3)
            if parts[0] != "known:":
                continue
            res.append((parts[1].split("=", 1)[1], parts[2].split("=", 1)[1], parts[3]))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--time", type=int)
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    args = ap.parse_args()
    os.umask(0o022)

    if args.build:
        for v in ("rel", "san"):
            build(v)
        return 0

    if args.replay:
        info = json.load(open(args.replay), strict=False)
        variant = info.get("variant", "rel")
        exe = build(variant)
        env = dict(os.environ)
        env["VF_KNOWN"] = ",".join(k[1] for k in known_findings())
        return subprocess.run([exe, "replay", os.path.abspath(args.replay)], env=env).returncode

    t0 = time.time()
    pid = args.prop
    conf = PROPS[pid]
    total = args.time or conf[args.tier]
    runs = conf.get("runs", [{"variant": "rel", "share": 1.0}])
    known = [k for k in known_findings() if k[0] == pid]
    env = dict(os.environ)
    env["VF_KNOWN"] = ",".join(k[1] for k in known)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=2000:handle_segv=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1"
    for k in list(env):
        if k.startswith("ARKI_") and k != "ARKI_REPO":
            del env[k]

    stats = {}
    rules = {}
    distinct = 0
    flaky = []
    violation = None
    evals = 0
    samples = []
    kfhits = {}
    exes = {r["variant"]: build(r["variant"]) for r in runs}
    workdir = tempfile.mkdtemp(prefix="vf", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")
    os.chmod(workdir, 0o755)
    try:
        for r in runs:
            exe = exes[r["variant"]]
            remaining = max(1, int(total * r.get("share", 1.0)))
            seed = args.seed
            attempt = 0
            while remaining > 0 and violation is None:
                attempt += 1
                out = os.path.join(workdir, "out.json")
                scratch = os.path.join(workdir, "scratch")
                cmd = [exe, "run", pid, "--seed", str(seed), "--jobs", str(r.get("jobs", args.jobs)),
                       "--time", str(remaining), "--out", out, "--scratch", scratch,
                       "--shrink", "90" if args.tier == "quick" else "240"]
                if args.tier == "thorough":
                    cmd.append("--thorough")
                only = args.only or r.get("only")
                if only:
                    cmd += ["--only", only]
                ts = time.time()
                res = subprocess.run(cmd, env=env, cwd=workdir)
                remaining -= time.time() - ts
                if res.returncode not in (0, 1) or not os.path.exists(out):
                    print(f"{pid}: search program ended with status {res.returncode}")
                    return 2
                data = json.load(open(out), strict=False)
                distinct += data.get("distinct", 0)
                rules.update(data["rules"])
                for w in data["stats"]:
                    for p in w["props"]:
                        s = stats.setdefault(p["name"], {"evaluations": 0, "nontrivial": 0, "discarded": 0, "counters": {}})
                        s["evaluations"] += p["evals"]
                        s["nontrivial"] += p["nontrivial"]
                        s["discarded"] += p["discards"]
                        for k, v in p["counters"].items():
                            if k.startswith("known:"):
                                kfhits[k[6:]] = kfhits.get(k[6:], 0) + v
                            s["counters"][k] = s["counters"].get(k, 0) + v
                        evals += p["evals"]
                        for x in p["samples"]:
                            samples.append(p["name"] + ": " + x)
                f = data.get("failure")
                if f:
                    rdir = os.path.join(HERE, "evidence", "replays")
                    os.makedirs(rdir, exist_ok=True)
                    rp = json.load(open(f["replay"]), strict=False)
                    rp["variant"] = r["variant"]
                    rp["seed"] = seed
                    dest = os.path.join(rdir, f"{pid}-{f['check']}-{seed}.json")
                    with open(dest, "w") as fd:
                        json.dump(rp, fd, indent=1)
                    if f["confirmed"]:
                        violation = (f, dest)
                    else:
                        flaky.append({"check": f["check"], "category": f["orig_category"],
                                      "message": f["orig_message"][:1000], "replay": dest})
                        # not reproducible: not reported, search continues
                        print(f"{pid}: unconfirmed failure of {f['check']} ({f['orig_category']}: "
                              f"{f['orig_message'][:300]}), reproduced {f['hits']}/{f['tries']}: not reported")
                        seed = seed * 1000 + 7 + attempt
                        if attempt > 5:
                            break
                else:
                    break
            if violation:
                break
    finally:
        shutil.rmtree(workdir, ignore_errors=True)

    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k[1]} {k[2]} (hit {kfhits.get(k[1], 0)} times in this run)")

    ev = {
        "property": pid,
        "tier": args.tier if args.tier in ("quick", "thorough") else "quick",
        "seed": args.seed,
        "level": conf.get("level", "exploration"),
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": "; ".join(f"{k}: {v}" for k, v in sorted(rules.items())),
            "samples": samples[:12] or ["(no sample recorded)"],
            "checks": stats,
            "unconfirmed": flaky,
            "variants": [r["variant"] for r in runs],
        },
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", f".{pid}.tmp")
    with open(tmp, "w") as fd:
        json.dump(ev, fd, indent=1)
    os.rename(tmp, os.path.join(HERE, "evidence", f"{pid}.json"))

    if violation:
        f, dest = violation
        print(f"{pid}/{f['check']}: {f['category']}: {f['message'][:2000]}")
        print(f"VIOLATION property={pid} replay={dest}")
        return 1
    print(f"{pid}: held on {evals} cases, {distinct} distinct non-trivial, {ev['wall_s']}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
