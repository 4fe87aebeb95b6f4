"""Decides one property on one seed: runs the scenario, its schedules and its
fault sequences, judges them, and minimises whatever fails."""
import copy
import hashlib
import json
import random
import time

from . import core, gen, ops, plan as P, profiles
from .run import Machine

FLAGS = {"C14": ("args",), "C17": ("globals",)}
NPLANS = {"C13": 4, "C15": 4, "C16": 3}


def clean(scn):
    return {k: v for k, v in scn.items() if not k.startswith("_")}


def dig(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


class Stats:
    def __init__(self):
        self.runs = 0
        self.steps = 0
        self.ops = 0
        self.cov = {}
        self.fired = {}
        self.nontrivial = set()
        self.traces = set()
        self.switches = 0
        self.modes = {}
        self.crashes = 0
        self.compared = 0
        self.digests = {}

    def take(self, scn_dig, res):
        self.runs += 1
        self.steps += res.nsteps
        self.ops += res.nops
        self.switches += res.nswitch
        self.crashes += bool(res.crashed)
        for k, v in res.cov.items():
            self.cov[k] = self.cov.get(k, 0) + v
        for k, v in res.fired.items():
            self.fired[k] = self.fired.get(k, 0) + v
        judged = any(k.startswith("checked") for k in res.cov)
        td = dig(res.trace) if res.trace else ""
        if judged:
            self.nontrivial.add(scn_dig + td)
        if res.trace:
            self.traces.add(td)

    def out(self):
        d = dict(vars(self))
        d["nontrivial"] = sorted(self.nontrivial)
        d["traces"] = sorted(self.traces)
        return d


# -- judgements ---------------------------------------------------------------
def judge(prop, scn, plan, stats=None, cache=None):
    """violations of the property in one planned run (plus what it is compared
    with).  Deterministic in (prop, scn, plan)."""
    flags = FLAGS.get(prop, ())
    sd = None
    if stats is not None:
        sd = dig(clean(scn))
    out = []

    def go(p=None, **k):
        m = Machine(scn, flags)
        res = m.run(p, **k)
        if stats is not None:
            stats.take(sd, res)
        return res

    if prop == "C15":
        ref = cache.get("ref") if cache else None
        if ref is None:
            ref = go()
        if not plan:
            return [], ref
        res = go(plan)
        # a call cut short and never repeated either took place or did not
        refs = [ref] + [go_without(scn, flags, keys, cache, stats, sd)
                        for keys in _subsets(res.out)]
        order = {"setup": 0, "main": 1, "closing": 2}
        lost = False
        for k in sorted(ref.out, key=lambda k: (order.get(k[0], 3), k[1:])):
            b = res.out.get(k)
            if b is None or b[0] in ("gaveup", "crash"):
                continue
            can = [x.out.get(k) for x in refs]
            if any(a is None or a == b or a[0] == "hang" for a in can):
                continue
            if b[0] == "skip" and len(refs) > 1:
                # whether a call given up took place decides what can be asked
                lost = True
            if lost:
                continue
            out.append(_v("C15", k, scn,
                          f"after the incident {b}, without it {can[0]}"))
        if stats is not None:
            stats.compared += len(ref.out)
        return out, res
    if prop == "C16":
        solos = cache.get("solos") if cache else None
        if solos is None:
            solos = [go(only=i) for i in range(len(scn["sessions"]))]
            if cache is not None:
                cache["solos"] = solos
        res = go(plan)
        for i, so in enumerate(solos):
            for k in sorted(so.out, key=str):
                if k[0] != "main" or k[1] != i:
                    continue
                a, b = so.out[k], res.out.get(k)
                if a[0] == "hang" or (b and b[0] == "crash"):
                    continue
                if a != b:
                    out.append(_v("C16", k, scn, f"together with the others {b}, alone {a}"))
        if stats is not None:
            stats.compared += len(res.out)
        return out, res
    if prop == "C17":
        ref = cache.get("ref") if cache else None
        if ref is None:
            ref = go()
        bad = [v for v in ref.violations if v["property"] == prop]
        if bad or not plan:
            return bad, ref
        what = plan["variant"]
        if "hash" in what:
            outs = [elsewhere(scn, h) for h in what["hash"]]
            ks = sorted(set(outs[0]) | set(outs[1]))
            for k in ks:
                if outs[0].get(k) != outs[1].get(k):
                    key = k.split("/")
                    out.append(_v("C17", (key[0], int(key[1]), int(key[2])), scn,
                                  f"under PYTHONHASHSEED={what['hash'][0]} "
                                  f"{outs[0].get(k)}, under {what['hash'][1]} {outs[1].get(k)}"))
            return out, ref
        res = go(hist=history(what.get("hist"), scn), env=what.get("env"),
                 again=what.get("again"))
        bad = [v for v in res.violations if v["property"] == prop]
        if bad:
            return bad, res
        n = 0
        for k in sorted(ref.out, key=str):
            a = ref.out[k]
            if a[0] == "hang":
                continue
            for k2, how in ((k, "in another process history"),
                            (("again",) + k[1:] if k[0] == "main" else None,
                             "repeated")):
                b = res.out.get(k2)
                if b is None or "skip" in (a[0], b[0]) or b[0] == "crash":
                    continue
                n += 1
                if a != b:
                    out.append(_v("C17", k, scn, f"{a}, {how} ({what}) {b}"))
        if stats is not None:
            stats.compared += n
        return out, res
    res = go(plan)
    return [v for v in res.violations if v["property"] == prop], res


def _subsets(out):
    """which of the calls given up may not have taken place"""
    keys = sorted((k for k, v in out.items() if v[0] == "gaveup" and
                   k[0] == "main"), key=str)[:3]
    return [[k for j, k in enumerate(keys) if i >> j & 1]
            for i in range(1, 1 << len(keys))]


def go_without(scn, flags, keys, cache, stats, sd):
    """the run without these calls and without any incident"""
    name = "without " + json.dumps(keys)
    if cache is not None and name in cache:
        return cache[name]
    s = dict(scn, sessions=[list(x) for x in scn["sessions"]])
    for _, tid, k in keys:
        s["sessions"][tid][k] = None
    res = Machine(s, flags).run()
    if stats is not None:
        stats.take(sd, res)
    if cache is not None:
        cache[name] = res
    return res


def history(spec, scn):
    """what the simulated process did before"""
    if not spec:
        return None
    kind, seed = spec
    if kind in ("same", "scaled", "relaid"):
        h = copy.deepcopy(clean(scn))
        if kind == "relaid":
            # the same calls on other meshes of as many cells
            r = random.Random(seed)
            for k, m in sorted(h["meshes"].items()):
                m2 = gen.sibling(r, m)
                if gen.Mesh(m2).n == gen.Mesh(m).n:
                    h["meshes"][k] = m2
        if kind == "scaled":
            for m in h["meshes"].values():
                m["delr"] = [x * 1.7 for x in m["delr"]]
                m["delc"] = [x * 0.6 for x in m["delc"]]
        return h
    return profiles.make("C18" if kind == "raw" else "C17", seed)


def elsewhere(scn, hashseed):
    """outcomes of a scenario in a process of its own"""
    import os
    import subprocess
    import sys
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = subprocess.run(
        [sys.executable, "-m", "sim.worker", "outcomes"], cwd=here, env=env,
        input=json.dumps(clean(scn)), capture_output=True, text=True,
        timeout=300)
    if p.returncode:
        raise core.HarnessError(p.stderr[-2000:])
    return json.loads(p.stdout.splitlines()[-1])


def outcomes(res):
    return {"/".join(str(x) for x in k): list(v) for k, v in res.out.items()
            if k[0] in ("setup", "main", "closing")}


def _v(prop, key, scn, what):
    phase, tid, k = key
    lst = (scn["setup"] if phase in ("setup", "again-setup") == "setup" else scn["closing"]
           if phase == "closing" else scn["sessions"][tid])
    name = lst[k]["o"] if 0 <= k < len(lst) and lst[k] else "?"
    return {"property": prop, "phase": phase, "session": tid, "op": k,
            "name": name, "what": what}


def examine(prop, seed, stats):
    """-> (scn, plan, violations) of the first failing run, or None"""
    scn = profiles.make(prop, seed)
    r = random.Random(f"plan/{prop}/{seed}")
    mode = scn["mode"]
    stats.modes[mode] = stats.modes.get(mode, 0) + 1
    sd = dig(clean(scn))
    flags = FLAGS.get(prop, ())
    base = Machine(scn, flags).run(record=True)
    stats.take(sd, base)
    if prop not in ("C15", "C16"):
        bad = [v for v in base.violations if v["property"] == prop]
        if bad:
            return scn, {}, bad
    if prop == "C17":
        stats.digests[str(seed)] = dig(outcomes(base))
        cache = {"ref": base}
        what = [
            {"hist": [r.choice(["same", "scaled", "relaid", "other", "raw"]),
                      r.randrange(1 << 40)], "env": r.randrange(1 << 30)},
            {"again": r.choice(["same", "fresh"])},
        ]
        for v in what:
            p = {"variant": v}
            name = "variant " + v.get("again", v.get("hist", [""])[0])
            stats.modes[name] = stats.modes.get(name, 0) + 1
            bad, _res = judge(prop, scn, p, stats, cache)
            if bad:
                return scn, p, bad
        return None
    if mode == "serial":
        return None
    cache = {"ref": base}
    if prop == "C15" and any(o[0] == "hang" for o in base.out.values()):
        return None
    for _ in range(NPLANS.get(prop, 2)):
        p = P.make(r, scn, base.steps, profiles.FOCUS.get(prop), mode)
        if not any(p.values()):
            continue
        bad, _res = judge(prop, scn, p, stats, cache)
        if bad:
            return scn, p, bad
    return None


def same_again(prop, seed):
    """one seed is one execution: two runs of its scenario under its first plan
    agree in every outcome and event"""
    got = []
    for _ in range(2):
        scn = profiles.make(prop, seed)
        r = random.Random(f"plan/{prop}/{seed}")
        base = Machine(scn, FLAGS.get(prop, ())).run(record=True)
        p = P.make(r, scn, base.steps, profiles.FOCUS.get(prop),
                   scn["mode"]) if scn["mode"] != "serial" else {}
        res = Machine(scn, FLAGS.get(prop, ())).run(p)
        got.append((base.digest(), json.dumps(p), res.digest(), res.nsteps))
    return got[0] == got[1]


# -- minimisation -------------------------------------------------------------
def minimise(prop, scn, plan, bad, limit=45.0):
    t0 = time.monotonic()
    scn = copy.deepcopy(clean(scn))
    plan = copy.deepcopy(plan)

    def fails(s, p):
        if time.monotonic() - t0 > limit:
            return None
        s = copy.deepcopy(s)
        try:
            v, _ = judge(prop, s, p)
        except core.HarnessError:
            return None
        return v or None

    best = bad
    for chan in ("faults", "switches"):
        lst = plan.get(chan) or []
        size = max(1, len(lst))
        while size and lst:
            i = 0
            while i < len(lst):
                cand = lst[:i] + lst[i + size:]
                p = dict(plan, **{chan: cand})
                v = fails(scn, p)
                if v:
                    lst, plan, best = cand, p, v
                else:
                    i += size
            size //= 2
    plan = {k: v for k, v in plan.items() if v}
    # drop operations (kept as gaps so that the plan stays valid)
    for part in ["closing"] + list(range(len(scn["sessions"]))) + ["setup"]:
        lst = scn[part] if isinstance(part, str) else scn["sessions"][part]
        if len(lst) > 1 or isinstance(part, int):
            s = copy.deepcopy(scn)
            if isinstance(part, str):
                s[part] = []
            else:
                s["sessions"][part] = []
            v = fails(s, plan)
            if v:
                scn, best = s, v
                continue
        size = max(1, len(lst) // 2)
        while size:
            i = 0
            while i < len(lst):
                if all(x is None for x in lst[i:i + size]):
                    i += size
                    continue
                s = copy.deepcopy(scn)
                tgt = s[part] if isinstance(part, str) else s["sessions"][part]
                for j in range(i, min(len(lst), i + size)):
                    tgt[j] = None
                v = fails(s, plan)
                if v:
                    scn, best = s, v
                    lst = scn[part] if isinstance(part, str) else scn["sessions"][part]
                i += size
            size //= 2
    # trim trailing gaps
    for lst in [scn["setup"], scn["closing"]] + scn["sessions"]:
        while lst and lst[-1] is None:
            lst.pop()
    used = set()
    for lst in [scn["setup"], scn["closing"]] + scn["sessions"]:
        used |= {a.get("g") for a in lst if a and a["o"] in ("dem", "mk")}
    s = copy.deepcopy(scn)
    s["meshes"] = {k: v for k, v in s["meshes"].items() if k in used}
    if s["meshes"] and fails(s, plan):
        scn = s
    v = None
    try:
        v, _ = judge(prop, copy.deepcopy(scn), plan)
    except core.HarnessError:
        pass
    return scn, plan, v or best
