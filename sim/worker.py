"""A worker process: searches seeds, or judges one replay.

    python -m sim.worker search PROP FIRST STRIDE COUNT SECONDS
    python -m sim.worker replay          (replay JSON on stdin)
    python -m sim.worker outcomes        (scenario JSON on stdin)
    python -m sim.worker minimise LIMIT  (replay JSON on stdin)

Prints one JSON object as its last line of output.
"""
import gc
import json
import os
import resource
import sys
import time
import traceback


def preload():
    """import everything the simulated program may import later, so that no run
    differs from another by what had been imported before"""
    import flopy                                            # noqa: F401
    import flopy.discretization                             # noqa: F401
    import flopy.utils.geometry                             # noqa: F401
    import flopy.utils.geospatial_utils                     # noqa: F401
    import geopandas                                        # noqa: F401
    import pandas                                           # noqa: F401
    import pickle                                           # noqa: F401
    import shapefile                                        # noqa: F401
    import shapely                                          # noqa: F401
    import shapely.geometry                                 # noqa: F401
    for name in ("geojson",
                 "scipy", "scipy.spatial", "networkx"):
        try:
            __import__(name)
        except Exception:
            pass
    from . import loader
    loader.fresh()
    gc.collect()
    gc.freeze()
    gc.disable()


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def search(prop, first, stride, count, seconds):
    from . import core, drive
    stats = drive.Stats()
    done = []
    found = None
    redone = differ = 0
    t0 = time.monotonic()
    for i in range(count):
        if time.monotonic() - t0 > seconds:
            break
        seed = first + i * stride
        f = drive.examine(prop, seed, stats)
        done.append(seed)
        if f is not None:
            found = (seed,) + f
            break
        if i % 16 == 7 and not drive.profiles.huge(prop, seed):
            # the same run once more: one seed, one execution
            redone += 1
            differ += not drive.same_again(prop, seed)
        gc.collect()
    out = {"stats": stats.out(), "done": len(done), "first": first,
           "stride": stride, "redone": redone, "differ": differ,
           "hash": os.environ.get("PYTHONHASHSEED"),
           "wall": time.monotonic() - t0, "found": None}
    if found is not None:
        seed, scn, plan, bad = found
        out["found"] = {
            "property": prop, "seed": seed, "scenario": drive.clean(scn),
            "plan": plan, "violations": bad, "earlier": done[:-1],
        }
    return out


def replay(rep):
    """judges a replay file's run; -> violations"""
    from . import drive
    prop = rep["property"]
    for seed in rep.get("earlier") or ():
        drive.examine(prop, seed, drive.Stats())
        gc.collect()
    scn = rep["scenario"]
    if scn is None:
        f = drive.examine(prop, rep["seed"], drive.Stats())
        return {"violations": f[2] if f else [], "trace": ""}
    bad, res = drive.judge(prop, scn, rep["plan"])
    return {"violations": bad, "trace": drive.dig(res.trace),
            "outcomes": drive.dig(drive.outcomes(res)), "steps": res.nsteps}


def main(argv):
    cmd = argv[0]
    data = json.loads(sys.stdin.read()) if cmd != "search" else None
    real = sys.stdout
    limits()
    preload()
    from . import drive
    sys.stdout = sys.stderr
    if cmd == "search":
        out = search(argv[1], int(argv[2]), int(argv[3]), int(argv[4]),
                     float(argv[5]))
    elif cmd == "replay":
        out = replay(data)
    elif cmd == "minimise":
        scn, plan, bad = drive.minimise(
            data["property"], data["scenario"], data["plan"],
            data["violations"], float(argv[1]))
        out = dict(data, scenario=drive.clean(scn), plan=plan, violations=bad)
    elif cmd == "outcomes":
        from .run import Machine
        out = drive.outcomes(Machine(data, ("globals",)).run(record=True))
    else:
        raise SystemExit("unknown command " + cmd)
    real.write(json.dumps(out) + "\n")
    real.flush()


if __name__ == "__main__":
    try:
        main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(3)
    sys.stdout.flush()
    os._exit(0)
