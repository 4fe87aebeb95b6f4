"""Seeded generation of schedules and fault sequences from a recorded dry run."""

CODE_KINDS = ["kbd", "kbd", "mem"]
OUT_KINDS = ["epipe", "eio"]
DISK_KINDS = ["short", "enospc", "eio", "crash", "crash", "full", "dead"]


def _step(r, rec):
    """an execution point of an operation: biased to function entries, to
    points right after shared state was written and to the end of the call"""
    nsteps, marks = rec[0], rec[1] or []
    u = r.random()
    if u < 0.45 and marks:
        return max(1, r.choice(marks) + r.choice([0, 0, 0, 1, 2]))
    if u < 0.7:
        return max(1, nsteps - r.randint(0, max(1, nsteps // 10)))
    if u < 0.8:
        return r.randint(1, max(1, min(nsteps, 30)))
    return r.randint(1, max(1, nsteps))


def _ops(scn, steps, focus):
    """(tid, op) pairs that did something, weighted towards the focus"""
    out = []
    for (tid, k), rec in sorted(steps.items()):
        if rec[0] < 1 and not rec[3]:
            continue
        a = scn["sessions"][tid][k]
        out += [(tid, k)] * (4 if focus and a["o"] in focus
                             or a.get("giveup") else 1)
    return out


def faults(r, scn, steps, focus, disk=False):
    cand = _ops(scn, steps, focus)
    if not cand:
        return []
    out = []
    nf = r.choices([1, 2, 3, 5], [5, 3, 2, 1])[0]
    for _ in range(nf):
        tid, k = r.choice(cand)
        rec = steps[(tid, k)]
        attempt = r.choices([0, 1, 2], [8, 2, 1])[0]
        u = r.random()
        if disk and rec[3] and u < 0.85:
            kind = r.choice(DISK_KINDS)
            idx = r.randint(1, rec[3] + 1)
            out.append([tid, k, attempt, "disk", idx, kind,
                        round(r.choice([0.0, 0.5, 0.99, 1.0, r.random()]), 3)])
        elif rec[2] and u < 0.3:
            out.append([tid, k, attempt, "out", r.randint(1, rec[2]),
                        r.choice(OUT_KINDS), None])
        else:
            out.append([tid, k, attempt, "code", _step(r, rec),
                        r.choice(CODE_KINDS), None])
        if attempt:
            # a fault in the retry needs one before
            out.append([tid, k, 0, "code", _step(r, rec), "kbd", None])
    seen = {}
    for f in out:
        seen.setdefault((f[0], f[1], f[2], f[3], f[4]), f)
    return sorted(seen.values(), key=lambda f: [str(x) for x in f])


def switches(r, scn, steps, focus, attempts=1):
    n = len(scn["sessions"])
    if n < 2:
        return []
    out = []
    style = r.choice(["fine", "fine", "few", "turns", "starve", "pair", "pair",
                      "pair", "pair"])
    keys = sorted(steps)
    if style == "turns":
        for tid in range(n):
            for k in range(len(scn["sessions"][tid])):
                if r.random() < 0.8:
                    out.append([tid, k, 0, 0, r.randrange(n)])
        return out
    cand = _ops(scn, steps, focus)
    if not cand:
        return []
    if style == "pair":
        # two calls of one kind overlap: each is left and resumed in its middle
        kinds = {}
        for tid, op in sorted(set(cand)):
            kinds.setdefault(scn["sessions"][tid][op]["o"], []).append((tid, op))
        both = [v for _, v in sorted(kinds.items()) if len({t for t, _ in v}) > 1]
        for _ in range(r.choice([1, 1, 2, 3]) if both else 0):
            v = r.choice(both)
            a = r.choice(v)
            b = r.choice([x for x in v if x[0] != a[0]])
            for x, y, k in ((a, b, r.choice([1, 1, 2, 3, 6])),
                            (b, a, r.choice([0, 1, 1, 2, 3, 6]))):
                out += [[*x, 0, _step(r, steps[x]), y[0]] for _ in range(k)]
        style = "few"
        if both:
            cand = []
    k = {"fine": r.randint(10, 60), "few": r.randint(1, 4),
         "starve": r.randint(2, 8)}[style]
    for _ in range(k if cand else 0):
        tid, op = r.choice(cand)
        if style == "starve" and tid:
            tid, op = r.choice(cand)
        rec = steps[(tid, op)]
        out.append([tid, op, 0, _step(r, rec), r.randrange(n)])
        if r.random() < 0.2:
            out.append([tid, op, 0, 0, r.randrange(n)])
    if style == "fine":
        # lock step through one pair of operations
        tid, op = r.choice(cand)
        rec = steps[(tid, op)]
        if rec[0]:
            stride = max(1, rec[0] // r.randint(3, 25))
            for st in range(stride, rec[0], stride):
                out.append([tid, op, 0, st, r.randrange(n)])
    seen = {}
    for s in out:
        seen.setdefault(tuple(s[:4]), s)
    return [seen[k] for k in sorted(seen)]


def make(r, scn, steps, focus, mode):
    p = {}
    if mode in ("inter", "both"):
        p["switches"] = switches(r, scn, steps, focus)
    if mode in ("fault", "both"):
        p["faults"] = faults(r, scn, steps, focus, bool(scn.get("disk")))
    return p
