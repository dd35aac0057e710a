#!/usr/bin/env python3
"""Run one property's simulation check.

  check.py <ID> [quick|thorough]     decide one property; exit 0 held, 1 violation
  check.py build                     build every simulator (setup)
  check.py replay <FILE>             re-execute a replay file with its full trace
"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
NPROC = os.cpu_count() or 4


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), SIM):
        for d, subs, files in os.walk(root):
            subs.sort()
            for f in sorted(files):
                if f.endswith((".cpp", ".h", ".hpp", ".c", ".inl")) or f == "Makefile":
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def build(targets):
    base = os.path.join(HERE, "build")
    os.makedirs(base, exist_ok=True)
    hx = tree_hash()
    bdir = os.path.join(base, hx)
    with open(os.path.join(base, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # Keep the few newest trees; drop the rest.
        olds = sorted((d for d in os.listdir(base) if d[0] != "." and d != hx),
                      key=lambda d: os.path.getmtime(os.path.join(base, d)))
        for d in olds[:-3]:
            shutil.rmtree(os.path.join(base, d), ignore_errors=True)
        os.makedirs(bdir, exist_ok=True)
        goals = [os.path.join(bdir, "simrun-" + t) for t in targets] or ["all"]
        r = subprocess.run(["make", "-s", "-j%d" % NPROC, "-f", os.path.join(SIM, "Makefile"),
                            "B=" + bdir, "REPO=" + REPO] + goals,
                           cwd=bdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write(r.stdout[-6000:])
            print("BUILD-FAILED (the simulator does not build against this tree)")
            sys.exit(3)
    return bdir


def known_findings():
    """-> {property: {finding id: text}}; 'fixed:' lines suppress nothing."""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("KNOWN-FINDING:"):
                w = line.split(None, 3)
                prop, fid = w[1].split("=")[1], w[2].split("=")[1]
                out.setdefault(prop, {})[fid] = w[3].strip() if len(w) > 3 else ""
    return out


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 3
    if sys.argv[1] == "build":
        print("built in", build([]))
        return 0
    if sys.argv[1] == "replay":
        prop = [l.split()[1] for l in open(sys.argv[2]) if l.startswith("property ")][0]
        b = build([prop])
        return subprocess.run([os.path.join(b, "simrun-" + prop), "--replay", sys.argv[2]]).returncode
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    bdir = build([prop])
    t_build = time.time() - t0
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    raw = os.path.join(ev_dir, prop + ".raw.json")
    replay = os.path.join(ev_dir, prop + ".replay")
    for f in (raw, replay):
        if os.path.exists(f):
            os.unlink(f)
    cap = 150 if tier == "quick" else 600
    cmd = [os.path.join(bdir, "simrun-" + prop), "--seed", str(seed), "--tier", tier, "--max-seconds", str(cap),
           "--workers", str(NPROC), "--out", raw, "--replay-out", replay]
    r = subprocess.run(cmd, stdout=subprocess.DEVNULL)
    rc = r.returncode
    if rc not in (0, 1) or not os.path.exists(raw):
        print("ERROR: simulator ended with status %d" % rc)
        return 3
    d = json.load(open(raw))
    os.unlink(raw)
    listed = known_findings().get(prop, {})
    seen = {f["id"]: f["text"] for f in d["findings"]}
    for fid, text in seen.items():
        if fid in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, fid, text))
    unlisted = [f for f in seen if f not in listed]
    search_s = max(d["search_wall_s"], 1e-6)
    cov = {
        "evaluations": d["runs"],
        "distinct_nontrivial": d["distinct_nontrivial"],
        "rule": d["rule"],
        "samples": d["samples"],
        "requested_runs": d["requested_runs"],
        "runs_per_hour": int(d["runs"] / search_s * 3600),
        "seeds_per_hour": int(d["runs"] / search_s * 3600),
        "one_seed_per_run": True,
        "scheduled_operations": d["ops"],
        "simulator_steps": d["steps"],
        "simulated_seconds": d["sim_seconds"],
        "simulated_to_wall_ratio": round(d["sim_seconds"] / search_s, 2),
        "faults": d["faults"],
        "distinct_state_transitions": d["distinct_transitions"],
        "state_measure": d["state_measure"],
        "probes": d["probes"],
        "probes_never_hit": [k for k, v in d["probes"].items() if not v],
        "real_code": d["real"],
        "stubbed": d["stub"],
        "repeatability": {"same_seed_pairs": d["repeatability_pairs"], "mismatches": d["repeatability_mismatches"]},
        "violation_gate": d["gate"],
        "known_findings_reproduced": sorted(f for f in seen if f in listed),
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "wall_s": round(time.time() - t0, 3),
        "violations": (1 if rc == 1 else 0) + len(unlisted),
        "assumptions": [
            "One seed decides every choice; a clean result covers the runs executed, not all runs.",
            "Compiled for i386 with g++ and AddressSanitizer, the pointer width of the project's own test build.",
        ],
    }
    if rc == 1:
        ev["coverage"]["violation"] = {"class": d["violation"], "message": d["violation_msg"],
                                       "minimised_ops": d["min_ops"], "minimiser_runs": d["min_tries"]}
    with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs (%d distinct non-trivial) in %.1fs after a %.1fs build; %d steps, %.1f simulated seconds" % (
        prop, tier, d["runs"], d["distinct_nontrivial"], search_s, t_build, d["steps"], d["sim_seconds"]))
    if d["repeatability_mismatches"] and rc == 0:
        print("ERROR: %d same-seed runs disagreed" % d["repeatability_mismatches"])
        return 3
    if rc == 1:
        print("%s: %s" % (d["violation"], d["violation_msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(replay, HERE)))
        return 1
    if unlisted:
        # A scripted scenario that nobody has listed: report it as what it is.
        with open(replay, "w") as f:
            f.write("SIMSCRIPT 1\nproperty %s\nscenario %s\n# %s\n" % (prop, unlisted[0], seen[unlisted[0]]))
        print("%s: %s" % (unlisted[0], seen[unlisted[0]]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(replay, HERE)))
        return 1
    return 0


sys.exit(main())
