#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

    check.py Cxx [--tier quick|thorough] [--seed N]     search
    check.py Cxx --replay FILE                          replay one failure

Exit 0: held on everything explored.  Exit 1 with a line
"VIOLATION property=<id> replay=<path>": broken.  Anything else: the check
itself failed and says nothing about the property.
"""
import argparse
import json
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
WORKERS = 8
# seeds per worker
QUICK = {
    "C01": 400, "C02": 420, "C03": 320, "C04": 360, "C05": 300, "C06": 150,
    "C07": 360, "C08": 340, "C09": 270, "C10": 320, "C11": 340, "C12": 340,
    "C13": 260, "C14": 340, "C15": 400, "C16": 250, "C17": 220, "C18": 150,
}
THOROUGH_SECONDS = 480
QUICK_SECONDS = 240
HARD = {"quick": 480, "thorough": 780}


def worker(args, data=None, hashseed=0, timeout=600):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run(
        [PY, "-m", "sim.worker"] + [str(a) for a in args], cwd=HERE, env=env,
        input=json.dumps(data) if data is not None else None,
        capture_output=True, text=True, timeout=timeout,
        stdin=subprocess.DEVNULL if data is None else None)
    if p.returncode != 0:
        raise RuntimeError(f"worker {args} ended with {p.returncode}:\n{p.stderr[-3000:]}")
    return json.loads(p.stdout.strip().splitlines()[-1])


def same_kind(a, b):
    return a["property"] == b["property"] and a["name"] == b["name"]


def confirm(rep):
    """-> the replay file's content once it fails again in a fresh process"""
    h = rep["pythonhashseed"]
    small = None
    try:
        small = worker(["minimise", 60], rep, h, 240)
    except Exception as e:
        print(f"note: not minimised ({str(e).splitlines()[0][:200]})", file=sys.stderr)
    for cand in (small, rep):
        if cand is None:
            continue
        cand = {k: v for k, v in cand.items() if k != "earlier"}
        out = worker(["replay"], cand, h)
        if out["violations"]:
            cand["violations"] = out["violations"][:5]
            cand["trace"] = out.get("trace")
            cand["outcomes"] = out.get("outcomes")
            return cand
    # needs what the process did before: replay that as well
    earlier = rep.get("earlier") or []
    n = 1
    while True:
        cand = dict(rep, earlier=earlier[-n:])
        for scn in (rep["scenario"], None):
            cand["scenario"] = scn
            out = worker(["replay"], cand, h, 900)
            if out["violations"]:
                cand["violations"] = out["violations"][:5]
                return cand
        if n >= len(earlier):
            return None
        n = min(len(earlier), n * 4)


def known(prop):
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.isfile(path):
        with open(path) as foo:
            for line in foo:
                line = line.strip()
                if line.startswith("finding: ") and f"property={prop} " in line:
                    out.append(line[len("finding: "):])
    return out


def merge(stats, st):
    for k, v in st.items():
        if isinstance(v, (int, float)):
            stats[k] = stats.get(k, 0) + v
        elif isinstance(v, dict):
            d = stats.setdefault(k, {})
            for a, b in v.items():
                d[a] = d[a] + b if isinstance(b, (int, float)) and a in d else b
        else:
            stats.setdefault(k, set()).update(v)


def report(prop, rep):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{prop}-{rep['seed']}.json")
    with open(path, "w") as foo:
        json.dump(rep, foo, indent=1)
    v = rep["violations"][0]
    print(f"{prop}: {v['what']}")
    print(f"  in phase {v['phase']}, session {v['session']}, operation {v['op']} ({v['name']}); seed {rep['seed']}")
    print(f"  plan: {json.dumps(rep['plan'])}")
    print(f"VIOLATION property={prop} replay={path}")
    sys.stdout.flush()


def do_replay(path):
    with open(path) as foo:
        rep = json.load(foo)
    out = worker(["replay"], rep, rep.get("pythonhashseed", 0), 900)
    if not out["violations"]:
        print(f"{rep['property']}: the replay does not fail on this tree")
        return 0
    rep["violations"] = out["violations"][:5]
    v = out["violations"][0]
    print(f"{rep['property']}: {v['what']}")
    print(f"VIOLATION property={rep['property']} replay={os.path.abspath(path)}")
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true",
                    help="nothing to build: see that the simulator starts")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.setup:
        out = worker(["search", "C03", 1, 1, 2, 60], None, 0, 300)
        print(f"simulator ready: {out['stats']['runs']} runs")
        return 0
    if a.replay:
        return do_replay(a.replay)
    prop, t0 = a.prop, time.monotonic()
    tier = "thorough" if a.tier == "thorough" else "quick"
    print(f"{prop}: seed {a.seed}, tier {tier}", flush=True)
    if tier == "quick":
        count, seconds = max(1, int(QUICK[prop] * a.scale)), QUICK_SECONDS
    else:
        count, seconds = 10 ** 6, THOROUGH_SECONDS * a.scale
    base = a.seed * 10_000_000
    results = [None] * WORKERS
    errors = []

    def go(k):
        h = (a.seed * 31 + k) % 4294967295
        try:
            if prop == "C17":
                # two processes under different hash seeds run the same seeds
                first, stride, n = base + k // 2, WORKERS // 2, 2 * count
                if tier == "thorough":
                    n = count
            else:
                first, stride, n = base + k, WORKERS, count
            out = worker(["search", prop, first, stride, n, seconds],
                         None, h, HARD[tier])
            out["pythonhashseed"] = h
            results[k] = out
        except Exception as e:
            errors.append(str(e))

    threads = [threading.Thread(target=go, args=(k,)) for k in range(WORKERS)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    stats, found = {}, []
    redone = differ = 0
    for r in results:
        if r is None:
            continue
        digests = r["stats"].pop("digests")
        r["digests"] = digests
        merge(stats, r["stats"])
        redone += r["redone"]
        differ += r["differ"]
        if r["found"]:
            rep = r["found"]
            rep["pythonhashseed"] = r["pythonhashseed"]
            found.append(rep)
    pairs = 0
    if prop == "C17" and not found:
        for k in range(0, WORKERS, 2):
            x, y = results[k], results[k + 1]
            if x is None or y is None:
                continue
            for s in x["digests"]:
                if s in y["digests"]:
                    pairs += 1
                    if x["digests"][s] != y["digests"][s] and len(found) < 2:
                        found.append(cross(int(s), x, y))
    found.sort(key=lambda f: (f["seed"]))
    bad = None
    for rep in found[:4]:
        bad = confirm(rep)
        if bad is not None:
            break
        errors.append(f"seed {rep['seed']}: {rep['violations'][0]} did not repeat")
    wall = time.monotonic() - t0
    evidence(prop, tier, a.seed, stats, results, wall, redone, differ, pairs, bad)
    for line in known(prop):
        print("KNOWN-FINDING: " + line)
    if bad is not None:
        report(prop, bad)
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 2
    print(f"{prop}: held on {stats['runs']} simulated runs "
          f"({len(stats['nontrivial'])} distinct and judged), {wall:.1f} s")
    return 0


def cross(seed, x, y):
    code = ("import json,sys\nfrom sim import profiles, drive\n"
            "print(json.dumps(drive.clean(profiles.make('C17', int(sys.argv[1])))))")
    p = subprocess.run([PY, "-c", code, str(seed)], cwd=HERE,
                       capture_output=True, text=True, check=True)
    hs = [x["pythonhashseed"], y["pythonhashseed"]]
    return {
        "property": "C17", "seed": seed, "pythonhashseed": 0,
        "scenario": json.loads(p.stdout.splitlines()[-1]),
        "plan": {"variant": {"hash": hs}}, "earlier": [],
        "violations": [{"property": "C17", "phase": "main", "session": 0,
                        "op": -1, "name": "?", "what": "differs between processes"}],
    }


COMPONENTS = {
    "real": "all of dany (unmodified source of /repo/dany, executed afresh per "
            "simulated process), flopy, numpy, pandas, shapely, geopandas, "
            "pickle, CPython buffered I/O",
    "simulated": "thread scheduling, interrupts and allocation failures (at "
                 "calls, returns, entries and back-edges of dany code), console, "
                 "raw disk operations and process death, clock, id(), locks",
    "stub": "none",
}


def evidence(prop, tier, seed, stats, results, wall, redone, differ, pairs, bad):
    sys.path.insert(0, HERE)
    done = sum(r["done"] for r in results if r)
    samples = []
    for r in results:
        if r and len(samples) < 3:
            samples.append({"seed": r["first"], "pythonhashseed": r["pythonhashseed"],
                            "reproduce": f"sim.worker search {prop} {r['first']} 8 1 60"})
    code = ("import json,sys\nfrom sim import profiles, drive\n"
            "print(json.dumps(drive.clean(profiles.make(sys.argv[1], int(sys.argv[2])))))")
    p = subprocess.run([PY, "-c", code, prop, str(seed * 10_000_000)], cwd=HERE,
                       capture_output=True, text=True)
    if p.returncode == 0:
        scn = json.loads(p.stdout.splitlines()[-1])
        samples.append({"scenario": {k: scn[k] for k in ("mode", "setup", "sessions")}
                        if len(p.stdout) < 20000 else {"mode": scn["mode"], "ops": [
                            [o["o"] for o in s] for s in scn["sessions"]]}})
    cov = {
        "evaluations": int(stats.get("runs", 0)),
        "distinct_nontrivial": len(stats.get("nontrivial", ())),
        "rule": "a case is one simulated run of a seeded scenario under one "
                "schedule and fault sequence; non-trivial: at least one call "
                "returned and was judged by an oracle; distinct: by scenario "
                "and event trace (switches, faults, crashes)",
        "samples": samples,
        "seeds": done,
        "seeds_per_hour": int(done / max(wall, 1e-9) * 3600),
        "runs_per_hour": int(stats.get("runs", 0) / max(wall, 1e-9) * 3600),
        "simulated_steps": int(stats.get("steps", 0)),
        "simulated_time": "time is counted in scheduler steps (dany has no "
                          "timers); see simulated_steps",
        "operations": int(stats.get("ops", 0)),
        "context_switches": int(stats.get("switches", 0)),
        "process_crashes": int(stats.get("crashes", 0)),
        "faults_fired": stats.get("fired", {}),
        "distinct_interleavings_and_fault_traces": len(stats.get("traces", ())),
        "outcomes_compared_with_reference_runs": int(stats.get("compared", 0)),
        "cross_process_pairs": pairs,
        "modes": stats.get("modes", {}),
        "probes": stats.get("cov", {}),
        "same_seed_rerun": redone,
        "same_seed_differed": differ,
        "worker_hash_seeds": [r["pythonhashseed"] for r in results if r],
        "components": COMPONENTS,
    }
    out = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
           "coverage": cov, "wall_s": round(wall, 2),
           "violations": int(bad is not None),
           "assumptions": [
               "CPython with the GIL: other threads, signals and failed "
               "allocations are noticed at calls, returns, function entries "
               "and loop back-edges of dany code",
               "a call into a library (flopy, numpy, pandas) is one step: "
               "faults and switches inside libraries are not simulated",
           ]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as foo:
        json.dump(out, foo, indent=1)


if __name__ == "__main__":
    sys.exit(main())
