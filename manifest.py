"""writes MANIFEST.json"""
import json
NOTE = ("Seeded search over scenarios, schedules and fault sequences of the real code; "
        "every run is repeatable from its seed. A clean batch is evidence, not proof. "
        "Switches and faults happen at calls, returns, entries and back-edges of dany "
        "code; calls into flopy, numpy and pandas are single steps. ")
WHAT = {
 "C01": "Results are compared with spill elevations and epsilon surfaces computed by an independent flood.",
 "C02": "Results are compared with an independent fixpoint rule over vertex-sharing neighbours.",
 "C03": "Directions are judged per cell against geometry and by walking every flow path.",
 "C04": "Accumulations are judged against the directions the object itself reports.",
 "C05": "Watersheds are compared with the set found by walking the directions in force.",
 "C06": "Labels are compared with the first outlet found by walking each path.",
 "C07": "Slope, aspect, vectors, flow length and area are recomputed from the mesh.",
 "C08": "Streams are compared with thresholds per cell; main stems by walking largest contributors.",
 "C09": "Reaches, connections and packages are judged against a network derived from directions and stream cells.",
 "C10": "Segments and reach tables are judged against a network derived from directions and stream cells.",
 "C11": "Runoff routing is compared with the first stream cell found by walking.",
 "C12": "Cascade links are compared with links derived from directions, slopes and masks.",
 "C13": "Reads are compared with what was saved, under a simulated disk with short writes, full disk, I/O errors, torn writes and process death.",
 "C14": "Contents of every argument and earlier result are compared before and after every call.",
 "C15": "Every outcome is compared with the same session without the incident.",
 "C16": "Every outcome is compared with the session run alone.",
 "C17": "Outcomes are compared between process histories, hash seeds, clocks, random states and repetitions.",
 "C18": "Every call has a step budget of 300000 + 20 n^2 and a default call stack.",
}
NA = {
 "C19": "a relation between answers to two different inputs with no schedule, fault, clock or history in it: nothing for a simulator to decide (each mesh kind is judged on its own by the checks of C01-C12)",
 "C20": "asymptotic time and memory are performance, which simulation does not decide; termination within a step budget is claimed as C18",
}
checks = []
for p in sorted(WHAT):
    checks.append({
        "property": p,
        "quick_cmd": f"/opt/venv/bin/python check.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python check.py {p}",
        "technique": "deterministic simulation with fault injection (seeded schedules, interrupts, failing allocations, console and disk)",
        "level": "exploration",
        "level_note": NOTE + WHAT[p],
    })
json.dump({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python check.py --setup",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: the simulator observes unmodified source through sys.monitoring, a module loader, open/os/lock/clock/id seams. Replay: /opt/venv/bin/python check.py <id> --replay <file>.",
}, open("/verif/MANIFEST.json", "w"), indent=1)
