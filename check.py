#!/usr/bin/env python3
"""Decides one property by deterministic simulation with fault injection.

  check.py PROPERTY [--tier quick|thorough] [--secs N]   run the check (exit 0 / 1 / 2)
  check.py replay FILE [-v]                              replay a recorded violation
"""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
PROFILES = ("chk", "rel")

# Runs per build profile in the quick tier (sized for some 20 to 40 s on 8 cores).
QUICK = {"C01": 45000, "C02": 35000, "C03": 60000, "C04": 70000, "C05": 60000, "C06": 45000,
         "C07": 60000, "C08": 12000, "C09": 60000, "C10": 45000, "C11": 35000, "C12": 45000,
         "C13": 45000, "C14": 60000}
QUICK_SECS = 150
THOROUGH_SECS = 720
THOROUGH_TOTAL = 860  # build, search and minimisation together
MINIMISE_SECS = 45

RULE = ("One case is one simulated execution: a workload, a fault plan and a scheduling seed, all drawn from "
        "VERIF_SEED (per profile and run index), plus the fixed cases of the scenario. It is non-trivial when a fault "
        "fired in it or it had more context switches than threads; two cases are the same when the hashes of their "
        "full histories (which thread ran from which step to which, and the fault and result events) are equal.")


def hsim(profile):
    return os.path.join(SIM, "target", profile, profile, "hsim")


def build(which="both"):
    r = subprocess.run([os.path.join(SIM, "build.sh"), which], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        print("error: the simulator does not build against /repo")
        sys.exit(2)


def replay(path, extra=()):
    text = open(path).read()
    m = re.search(r"^profile (\w+)$", text, re.M)
    prof = m.group(1) if m and m.group(1) in PROFILES else "chk"
    r = subprocess.run([hsim(prof), "replay", "--file", path, *extra], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    m = re.search(r"^outcome (\S+) ?(\S*)$", r.stdout, re.M)
    return (m.group(1), m.group(2), r.stdout) if m else ("error", "", r.stdout)


def parse(path):
    d = {"probe": {}, "mode": {}, "opk": {}, "error": []}
    for l in open(path):
        k, _, v = l.rstrip("\n").partition(" ")
        if k in ("probe", "mode", "opk"):
            a, b = v.rsplit(" ", 1)
            d[k][a] = int(b)
        elif k == "error":
            d["error"].append(v)
        elif k in ("wall", "profile"):
            d[k] = v
        else:
            d[k] = int(v)
    return d


def known(prop):
    """Findings recorded as not repaired: fixed plans, each with the class of violation it shows."""
    out = []
    d = os.path.join(HERE, "known")
    listed = open(os.path.join(HERE, "known-findings.txt")).read() if os.path.exists(os.path.join(HERE, "known-findings.txt")) else ""
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.startswith(prop + "-") and f.endswith(".plan"):
            m = re.search(r"^known: property=%s plan=known/%s (.*)$" % (prop, re.escape(f)), listed, re.M)
            if m:
                cls = re.search(r"^class (\S+)$", open(os.path.join(d, f)).read(), re.M).group(1)
                out.append((os.path.join(d, f), cls, m.group(1)))
    return out


def violation(prop, path):
    print("VIOLATION property=%s replay=%s" % (prop, path))


def check(prop, tier, secs=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    build()
    work = os.path.join(HERE, "sim", "target", "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    runs = QUICK[prop] if tier == "quick" else 10**9
    limit = secs or (QUICK_SECS if tier == "quick" else
                     max(60, min(THOROUGH_SECS, THOROUGH_TOTAL - 2 * MINIMISE_SECS - (time.time() - t0))))
    cpus = len(os.sched_getaffinity(0))
    status = 0
    viol = 0

    findings = []
    for path, cls, text in known(prop):
        kind, c, out = replay(path)
        if kind == "violation" and c == cls:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
            findings.append(text)
        elif kind == "violation":
            print(out)
            violation(prop, path)
            status, viol = 1, viol + 1
        elif kind != "ok":
            print(out)
            print("error: could not replay %s" % path)
            return 2

    # Both build profiles at the same time, each on half of the processors.
    workers = max(1, cpus // 2)
    ps = []
    for v in PROFILES:
        out = os.path.join(work, v)
        c = [hsim(v), "search", "--prop", prop, "--seed", str(seed), "--runs", str(runs), "--workers", str(workers),
             "--secs", str(limit), "--out", out]
        ps.append((v, out, subprocess.Popen(c)))
    res = {}
    for v, out, p in ps:
        rc = p.wait()
        if not os.path.exists(out):
            print("error: search ended with status %d and no result" % rc)
            return 2
        res[v] = parse(out)
        if rc not in (0, 1):
            for e in res[v]["error"][:5]:
                print("error: %s: %s" % (v, e))
            if rc != 2 or "violation" not in res[v]:
                status = max(status, 2) if status != 1 else 1

    for v in PROFILES:
        if "violation" not in res[v]:
            continue
        idx = res[v]["violation"]
        path = os.path.join(HERE, "replays", "%s-%s-s%d-r%d.plan" % (prop, v, seed, idx))
        r = subprocess.run([hsim(v), "minimise", "--prop", prop, "--seed", str(seed), "--index", str(idx), "--out", path,
                            "--secs", str(MINIMISE_SECS)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            r2 = subprocess.run([hsim(v), "plan", "--prop", prop, "--seed", str(seed), "--index", str(idx)],
                                stdout=subprocess.PIPE, text=True)
            open(path, "w").write(r2.stdout)
        kind, cls, out = replay(path)
        print("%s build, seed %d, run %d: %s" % (v, seed, idx, r.stdout.strip()))
        print("replay of the minimised trace: %s %s" % (kind, cls))
        if kind == "violation" or r.returncode == 0:
            violation(prop, path)
            status, viol = 1, viol + 1
        else:
            print("error: the violation does not replay")
            status = 1 if status == 1 else 2

    # The same seeds again with another number of workers must give the same histories.
    det = {}
    if status == 0:
        n = 400
        for v in PROFILES:
            h = []
            for w in (1, 3):
                f = os.path.join(work, "%s.h%d" % (v, w))
                subprocess.run([hsim(v), "search", "--prop", prop, "--seed", str(seed), "--runs", str(n), "--workers", str(w),
                                "--secs", "60", "--out", f + ".out", "--hashes", f], check=False)
                lines = []
                for i in range(w):
                    lines += open("%s.w%d" % (f, i)).read().splitlines()
                h.append(dict((l.split(" ", 1)) for l in lines))
            both = set(h[0]) & set(h[1])
            det[v] = {"runs_repeated": len(both), "histories_that_differed": sum(h[0][k] != h[1][k] for k in both),
                      "runs_repeated_in_the_search_from_seed_and_from_record": res[v].get("repeated", 0),
                      "of_which_differed": res[v].get("differed", 0)}

    samples = []
    for v in PROFILES:
        for i in (3, 77):
            r = subprocess.run([hsim(v), "plan", "--prop", prop, "--seed", str(seed), "--index", str(i)], stdout=subprocess.PIPE, text=True)
            t = r.stdout
            samples.append({"profile": v, "run": i, "case": t if len(t) < 2500 else t[:2500] + "..."})
    tot = lambda k: sum(res[v].get(k, 0) for v in PROFILES)
    add = lambda k: {a: sum(res[v][k].get(a, 0) for v in PROFILES) for a in sorted(set().union(*[res[v][k] for v in PROFILES]))}
    search_wall = max(float(res[v]["wall"]) for v in PROFILES)
    pr = add("probe")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot("runs"),
            "distinct_nontrivial": sum(res[v].get("nontrivial", 0) for v in PROFILES),
            "rule": RULE,
            "samples": samples,
            "distinct_histories": sum(res[v].get("distinct", 0) for v in PROFILES),
            "runs_by_profile": {v: res[v]["runs"] for v in PROFILES},
            "runs_per_hour": int(tot("runs") / max(search_wall, 1e-3) * 3600),
            "simulated_time_in_steps": tot("steps"),
            "instrumented_memory_accesses": tot("mem"),
            "context_switches": tot("switches"),
            "operations": tot("ops"),
            "operations_by_kind": add("opk"),
            "scheduling_modes": add("mode"),
            "faults_injected_by_kind": {k[6:]: n for k, n in pr.items() if k.startswith("fault.")},
            "reach_probes": {k: n for k, n in pr.items() if not k.startswith("fault.")},
            "determinism_recheck": det,
            "components": {
                "real": ["householder (all of /repo/src, compiled from the working tree)", "matrixmultiply",
                         "rand, rand_distr, num", "the Rust standard library"],
                "simulated": ["thread scheduling", "the process's heap", "operating-system entropy (getrandom)",
                              "caller-supplied storage containers, generators and callbacks"],
            },
            "known_findings": findings,
        },
        "assumptions": [
            "Threads are interleaved at every basic block and memory access of householder (and of the portable "
            "multiplication kernels in the chk build); the executions are sequentially consistent.",
            "In the rel build the SIMD kernels of matrixmultiply run without preemption.",
            "Search, not enumeration: a clean result is evidence over the runs counted here.",
        ],
        "wall_s": round(time.time() - t0, 1),
        "violations": viol,
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for f in os.listdir(work):
        os.remove(os.path.join(work, f))
    os.rmdir(work)
    print("%s %s: %d runs (%d distinct non-trivial histories), %.0f s, %s" % (
        prop, tier, tot("runs"), ev["coverage"]["distinct_nontrivial"], ev["wall_s"],
        {0: "held on everything explored", 1: "VIOLATED", 2: "ERROR"}[status]))
    return status


def main():
    a = sys.argv[1:]
    if a and a[0] == "replay":
        build()
        kind, _, out = replay(a[1], a[2:])
        print(out, end="")
        sys.exit({"ok": 0, "violation": 1}.get(kind, 2))
    if not a or a[0] not in QUICK:
        print(__doc__)
        sys.exit(2)
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    secs = float(a[a.index("--secs") + 1]) if "--secs" in a else None
    sys.exit(check(a[0], "thorough" if tier == "thorough" else "quick", secs))


if __name__ == "__main__":
    main()
