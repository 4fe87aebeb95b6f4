"""Per-property scenario profiles: which operations sessions perform, how many
sessions there are and what they share.  Everything is drawn from the seed."""
import random

from . import ops
from .gen import FMT, Gen, Script, gen_mesh, sibling, wide_dem

QUERY = ("ws", "sub", "nidp", "terrain")


def _maybe_ask(s, g, p=0.3):
    if s.r.random() < p:
        s.ask(g)


def _noise(s, g):
    """something else happening on the same grid or on another one"""
    r = s.r
    u = r.random()
    if u < 0.25:
        s.ask(g)
    elif u < 0.45:
        s.fill(g)
    elif u < 0.6:
        s.fillnan(g)
    elif u < 0.8:
        f = s.fa(g)
        if r.random() < 0.5:
            s.facc(f)
    elif u < 0.9 and s.g.meshes:
        g2 = s.grid()
        s.fill(g2)
        if r.random() < 0.5:
            s.add(o="drop", g=g2)
    elif u < 0.95:
        s.add(o="top", g=g, v=r.choice([0.0, -5.0, 777.25]))
    else:
        s.add(o="idom", g=g, off=s.cells(s.mesh(g), r.randint(0, 5)))


# -- one session of each property -------------------------------------------
def s_fill(s, g):
    r = s.r
    last, prev = None, {}
    for _ in range(r.randint(1, 4)):
        _maybe_ask(s, g)
        u = r.random()
        if u < 0.15:
            _noise(s, g)
        if last is not None and r.random() < 0.35:
            fmt = last[1]
            d = s.dem(g, fmt=fmt, into=last[0])
        else:
            fmt = r.choice(FMT)
            d = s.dem(g, fmt=fmt if r.random() < 0.7 else None)
        last = (d, fmt)
        f = s.fill(g, d)
        if len(s.ops) > 3 and r.random() < 0.3:
            s.ops[-1].update({k: v for k, v in prev.items()
                              if k in ("eps", "method")})
        prev = s.ops[-1]
        if r.random() < 0.2:
            s.fill(g, f)
        if r.random() < 0.15:
            s.add(o="scribble", d=d, v=r.choice([0, -100, 3]))
        if r.random() < 0.15:
            s.fill(g, s.fillnan(g) if r.random() < 0.3 else s.dem(g))


def s_nan(s, g):
    r = s.r
    for _ in range(r.randint(1, 4)):
        _maybe_ask(s, g)
        if r.random() < 0.15:
            _noise(s, g)
        n = s.fillnan(g)
        if r.random() < 0.2:
            s.add(o="fillnan", g=g, d=n, r=s.name("n"), method=r.choice(["max", None]))


def s_fdir(s, g):
    r = s.r
    for _ in range(r.randint(1, 2)):
        _maybe_ask(s, g)
        if r.random() < 0.25:
            _noise(s, g)
        f = s.fa(g)
        for _ in range(r.choice([0, 0, 1, 2])):
            if r.random() < 0.3:
                s.query(f)
            elif r.random() < 0.3:
                s.facc(f)
            if r.random() < 0.2:
                s.add(o="scribble", d=f["d"], v=r.choice([0, -100, 3]))
            s.fdir(f)
            if r.random() < 0.3:
                s.add(o="getfa", f=f["n"])


def s_facc(s, g):
    r = s.r
    f = s.fa(g)
    if r.random() < 0.3:
        # one unit again and again while the directions change
        unit = r.choice([None, True, False])
        for _ in range(r.randint(2, 6)):
            over = {}
            if r.random() < 0.8:
                over["term"] = s.cells(s.mesh(g), r.choice([1, 1, 2]))
            s.fdir(f, **over)
            s.add(o="facc", f=f["n"], cells=unit)
    for _ in range(r.randint(1, 4)):
        u = r.random()
        if u < 0.55:
            s.facc(f)
        elif u < 0.72:
            s.query(f, "nidp")
        elif u < 0.85:
            s.fdir(f)
        elif u < 0.93:
            s.add(o="getfa", f=f["n"])
        else:
            s.query(f)
    if r.random() < 0.5:
        s.facc(f)
    s.add(o="getfa", f=f["n"])


def s_query(what):
    def go(s, g):
        r = s.r
        f = s.fa(g)
        if r.random() < 0.3:
            s.facc(f)
        for _ in range(r.randint(2, 6)):
            u = r.random()
            if u < 0.7:
                s.query(f, what)
            elif u < 0.8:
                s.query(f)
            elif u < 0.93:
                s.fdir(f)
            else:
                _noise(s, g)
        s.query(f, what)
    return go


def stream_session(kinds, define=0.3, exports=None, rounds=(2, 7)):
    def go(s, g):
        r = s.r
        _maybe_ask(s, g, 0.15)
        f = s.fa(g)
        s.facc(f)
        if r.random() < 0.3:
            s.query(f, r.choice(["ws", "ws", "sub"]))
        sts = [s.strm(f, r.choice(kinds))]
        s.delin(sts[0])
        if s.mesh(g).n > 100 and r.random() < 0.6:
            # few streams, long hillslopes; or the whole length is a stream
            s.add(o="delin", s=sts[0]["n"], t=0,
                  rank=r.choice([0.0, 0.0, 0.004, 0.999]))
            s.export(sts[0], exports[0] if exports else None)
        for _ in range(r.randint(*rounds)):
            u = r.random()
            if u > 0.93:
                st = r.choice(sts)
                s.swaps(st, lambda: s.export(
                    st, r.choice(exports) if exports else None))
            elif u < 0.06:
                # another stream object on the same grid
                if r.random() < 0.5:
                    f2 = s.fa(g)
                    s.facc(f2)
                else:
                    f2 = f
                st = s.strm(f2)
                s.delin(st)
                sts.append(st)
                if r.random() < 0.5:
                    s.export(st)
            elif u < 0.1:
                _noise(s, g)
            elif u < 0.1 + define:
                s.delin(r.choice(sts))
            elif u < 0.18 + define:
                # the shared flow object is recomputed by its owner
                if r.random() < 0.5:
                    s.fdir(f)
                s.facc(f)
            else:
                st = r.choice(sts)
                s.export(st, r.choice(exports) if exports else None)
        s.export(sts[0], r.choice(exports) if exports else None)
    return go


def s_ctrl(s, g):
    r = s.r
    f = s.fa(g)
    s.facc(f)
    st = s.strm(f)
    for _ in range(r.randint(2, 5)):
        u = r.random()
        if u < 0.35:
            s.delin(st)
        elif u < 0.65:
            s.ctrl(st)
        elif u < 0.77:
            # the owner of the flow object accumulates something else
            s.facc(f)
            s.ops[-1]["cells"] = r.choice([True, False])
            if r.random() < 0.5:
                s.delin(st)
        elif u < 0.87:
            s.export(st, "getarr")
        else:
            s.export(st)
    s.add(o="getarr", s=st["n"])


def s_mix(s, g):
    r = s.r
    if r.random() < 0.4:
        s_fill(s, g)
    if r.random() < 0.3:
        s_nan(s, g)
    f = s.fa(g)
    for _ in range(r.randint(1, 3)):
        u = r.random()
        if u < 0.7:
            s.query(f)
        elif u < 0.85:
            s.facc(f)
        else:
            s.fdir(f)
    if r.random() < 0.85:
        s.facc(f)
        st = s.strm(f)
        s.delin(st)
        for _ in range(r.randint(1, 5)):
            if r.random() < 0.25:
                s.delin(st)
            s.export(st)
        s.query(f)


def s_chain(s, g):
    """a long chain of cells, also with exports (deep recursion, long loops)"""
    r = s.r
    m = s.mesh(g)
    z = [float(i) for i in range(m.n)]
    if r.random() < 0.5:
        z.reverse()
    d = s.name("d")
    s.add(o="dem", g=s.g.gridmesh[g], r=d, v=z)
    u = r.random()
    n = s.name("a")
    s.add(o="fa", g=g, d=d, r=n, check=False)
    f = {"n": n, "g": g, "fd": {}, "src": "chain", "d": d}
    s.fas.append(f)
    s.add(o="fdir", f=n)
    s.add(o="facc", f=n, cells=True)
    if u < 0.3:
        for w in ("ws", "sub", "terrain"):
            s.query(f, w)
    else:
        st = s.strm(f)
        if u < 0.6:
            s.add(o="delin", s=st["n"], t=r.choice([0, 1, 5]))
        else:
            s.add(o="ctrl", s=st["n"], r=s.name("t"), t=r.choice([None, 1e12]),
                  cs=[r.choice([0, m.n - 1, r.randrange(m.n)])
                      for _ in range(r.choice([1, 2]))],
                  form=r.choice(ops.POINTS_FORMS))
            if u < 0.8:
                s.add(o="delin", s=st["n"], tv=s.ops[-1]["r"])
            else:
                s.add(o="delin", s=st["n"], t=5)
        for _ in range(r.randint(2, 3)):
            s.export(st)


def s_raw(s, g):
    """elevations no other property promises anything for"""
    r = s.r
    m = s.mesh(g)
    k = len(s.ops)
    for _ in range(r.randint(1, 3)):
        st = r.choice(["flat", "flat", "int", "rand", "pits", "ties"])
        nan = r.random() < 0.3
        d = s.dem(g, st, nan=nan, fmt="")
        if nan and r.random() < 0.6:
            d2 = s.name("n")
            s.add(o="fillnan", g=g, d=d, r=d2)
            d = d2
        if r.random() < 0.3:
            d = s.fill(g, d)
            s.ops[-1]["eps"] = r.choice([0.0, 0.0, 2e-6, 1e-12])
            s.ops[-1]["method"] = r.choice(["priority", "complete", "drain"])
        n = s.name("a")
        s.add(o="fa", g=g, d=d, r=n, check=r.choice([False, False, None]))
        f = {"n": n, "g": g, "fd": {}, "src": "raw", "d": d}
        s.fas.append(f)
        s.fdir(f)
        for _ in range(r.randint(0, 3)):
            s.query(f)
        if r.random() < 0.6:
            s.facc(f)
            st = s.strm(f)
            s.delin(st)
            for _ in range(r.randint(1, 3)):
                s.export(st)
    for a in s.ops[k:]:
        if a["o"] not in ("mk", "dem", "ask", "drop", "top", "idom", "scribble",
                          "strm"):
            a["raw"] = 1


def s_bounded(s, g):
    r = s.r
    u = r.random()
    m = s.mesh(g)
    if m.n > 1000:
        s_chain(s, g)
    elif u < 0.6:
        s_raw(s, g)
    elif u < 0.7:
        s_nan(s, g)
    else:
        s_mix(s, g)


BODY = {
    "C01": s_fill, "C02": s_nan, "C03": s_fdir, "C04": s_facc,
    "C05": s_query("ws"), "C06": s_query("sub"), "C07": s_query("terrain"),
    "C08": s_ctrl,
    "C09": stream_session(["sfr6", "sfr6", "prms"],
                          exports=["conn", "conn", "cdata", "cpass", "pdata",
                                   "pdata", "pdata", "vec"]),
    "C10": stream_session(["sfr2005", "sfr2005", "sfr2005", "prms", "sfr6"],
                          exports=["conn", "rdata", "rdata", "sdata", "vec",
                                   "build"]),
    "C11": stream_session(["sfr2005"], exports=["irun", "irun", "irun", "conn",
                                               "rdata", "build", "vec"]),
    "C12": stream_session(["prms"], exports=["casc", "casc", "build", "conn",
                                             "vec"]),
    "C14": s_mix, "C15": s_mix, "C16": s_mix, "C17": s_mix, "C18": s_bounded,
}

# streams make up most state: also in the general mixes
MIX2 = [
    s_mix, stream_session(["sfr6", "sfr2005", "prms"]),
    stream_session(["sfr6", "sfr2005", "prms"], define=0.4, rounds=(3, 8)),
]

FOCUS = {
    "C01": {"fill"}, "C02": {"fillnan"}, "C03": {"fa", "fdir"},
    "C04": {"facc", "fdir", "nidp"}, "C05": {"ws", "fdir"},
    "C06": {"sub", "fdir"}, "C07": {"terrain", "fdir"},
    "C08": {"delin", "ctrl", "setarr"},
    "C09": {"delin", "conn", "cdata", "pdata", "setarr"},
    "C10": {"delin", "conn", "rdata", "sdata", "vec", "build", "setarr"},
    "C11": {"delin", "conn", "irun", "setarr"},
    "C12": {"delin", "casc", "build", "setarr"},
    "C13": {"write", "read"},
}


# calls that may be cut short and not be repeated
GIVEUP = {"fdir", "conn", "cdata", "pdata", "rdata", "sdata", "irun", "casc", "build",
          "vec", "delin", "setarr", "facc", "ctrl", "ws", "sub", "terrain",
          "nidp"}


# properties that also look at flow paths of hundreds of cells
RIVER = ("C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11",
         "C12")


def _mesh_for(prop, r):
    if prop in ("C18",) and r.random() < 0.06:
        return gen_mesh(r, "chain", "s" if r.random() < 0.7 else r.choice("vu"))
    if prop in RIVER and r.random() < 0.04:
        return gen_mesh(r, "river", "s" if prop in ("C10", "C11") else None)
    kind = None
    if prop in ("C10", "C11", "C13") and r.random() < 0.5:
        kind = "s"
    if prop in ("C15", "C16", "C17", "C14"):
        size = r.choices(["tiny", "small", "mid", "line"], [1, 8, 2, 0.5])[0]
        return gen_mesh(r, size, kind)
    return gen_mesh(r, None, kind)


def _reuse_history(s, r, prop):
    """equal-sized grids made and forgotten before the real one"""
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        g = s.grid()
        u = r.random()
        if u < 0.4:
            s.fill(g)
        elif u < 0.6:
            s.fillnan(g)
        else:
            f = s.fa(g)
            if r.random() < 0.4:
                s.facc(f)
                st = s.strm(f)
                s.delin(st)
                s.export(st)
        if r.random() < 0.7:
            s.add(o="drop", g=g)


def _closing(g, script, prop, r):
    """what the user does with the same objects once everything is quiet"""
    c = Script(g, "z")
    for f in script.fas[-2:]:
        for w in QUERY:
            if r.random() < 0.5:
                c.query(f, w)
    for st in script.sts[-3:]:
        c.add(o="getarr", s=st["n"])
        for _ in range(r.randint(1, 2)):
            c.export(st)
        if r.random() < 0.5:
            c.delin(st)
            c.export(st)
    return c


def make(prop, seed):
    """scenario of a property for a seed"""
    r = random.Random(f"{prop}/{seed}")
    gen = Gen(r.randrange(1 << 60))
    gen.seed = seed
    mode = r.choices(["serial", "inter", "fault", "both"], [3, 3, 3, 1])[0]
    gen.seed = seed
    if huge(prop, seed):
        return _make_huge(gen, r, prop)
    if prop == "C13" or prop == "C18" and r.random() < 0.05:
        return _make_disk(gen, r, seed, prop)
    if prop == "C15":
        mode = "fault"
    if prop == "C16":
        mode = "inter"
    if prop == "C17":
        mode = "serial"
    sp = _mesh_for(prop, r)
    if gen.lean == "ties" and r.random() < 0.7:
        # squares: neighbours at exactly equal distances
        dx = r.choice([1.0, 10.0, 250.0])
        sp["delr"], sp["delc"] = [dx] * len(sp["delr"]), [dx] * len(sp["delc"])
        sp.pop("angrot", None)
        if r.random() < 0.7:
            sp.pop("cut", None)
    gen.add_mesh(sp)
    river = gen._m["M0"].n > 100 and min(len(sp["delr"]), len(sp["delc"])) == 1
    if river:
        gen.lean = "tree"
    if r.random() < 0.4 and not river:
        gen.add_mesh(sibling(r, gen.meshes["M0"]) if r.random() < 0.8
                     else gen_mesh(r))
    setup = Script(gen, "u")
    nsess = 1
    if mode in ("inter", "both"):
        nsess = r.choice([2, 2, 2, 3])
    share = r.random() < (0.7 if prop == "C16" else 0.5)
    body = BODY[prop]
    if prop in ("C14", "C15", "C16", "C17"):
        body = r.choice(MIX2)
    g0 = None
    shared_fa = None
    if share or nsess == 1:
        if r.random() < 0.3:
            _reuse_history(setup, r, prop)
        g0 = setup.grid("M0")
        if r.random() < 0.3:
            setup.ask(g0)
        if nsess > 1 and prop in ("C05", "C06", "C07", "C14", "C16", "C04") \
                and r.random() < 0.45:
            shared_fa = setup.fa(g0)
            setup.facc(shared_fa)
            if r.random() < 0.15:
                setup.query(shared_fa)
    sessions = []
    scripts = []
    for k in range(nsess):
        s = Script(gen, "abc"[k])
        if shared_fa is not None:
            _query_only(s, shared_fa, prop)
        else:
            if g0 is None:
                if r.random() < 0.3:
                    _reuse_history(s, r, prop)
                g = s.grid()
            else:
                g = g0
                if r.random() < 0.08:
                    _reuse_history(s, r, prop)
            body(s, g)
        if nsess > 1 and prop in ("C16",):
            # the caller's own edits of a shared grid are not concurrent-safe
            s.ops = [a for a in s.ops if a["o"] not in ("top", "idom")
                     and not (g0 is not None and a["o"] in ("ask", "drop")
                              and a["g"] == g0)]
        if r.random() < 0.35:
            _refused(s, r, shared_fa)
        if mode in ("fault", "both"):
            for a in s.ops:
                if a["o"] in ("ws", "sub", "terrain", "nidp", "fill", "fillnan",
                              "fdir", "facc", "getfa") \
                        and not a.get("r") and r.random() < 0.1:
                    a["giveup"] = 1
        if prop == "C15":
            _give_up(s, r)
        sessions.append(s.ops)
        scripts.append(s)
    closing = []
    if r.random() < (0.8 if prop in ("C14", "C15", "C17") else 0.3):
        for s in scripts:
            if shared_fa is None:
                closing += _closing(gen, s, prop, r).ops
        if prop == "C16":
            closing = []
    return gen.scenario(setup.ops, sessions, closing, mode=mode, prop=prop,
                        shared=bool(shared_fa), envseed=r.randrange(1 << 30))


def _give_up(s, r):
    """calls that are not repeated when they are cut short"""
    n = 3
    for k, a in reversed(list(enumerate(s.ops))):
        own = a.get("x") and a["o"] not in ("strm", "fa")
        if a["o"] not in GIVEUP or not n \
                or a.get("r") and not (own or a["o"] == "conn") \
                or r.random() >= (0.5 if own else 0.15):
            continue
        a["giveup"] = 1
        n -= 1
        if own and r.random() < 0.7:
            # the streams the object held before are still its own
            b = {x: v for x, v in a.items()
                 if x not in ("x", "fmt", "giveup", "own", "nan")}
            if "r" in b:
                b["r"] = s.name("y")
            s.ops[k + 1:k + 1] = [{"o": "getarr", "s": a["s"]}, b]


BAD = {
    "s": ["setarr", "thr", "bound", "ctrl", "ctrlout", "kw"],
    "f": ["pt3", "ptout", "pts3", "ptsout", "term", "term", "rc"],
    "g": ["nan", "size", "mask"],
}


def _refused(s, r, shared):
    """calls with arguments that are refused, here and there"""
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.randint(0, len(s.ops))
        have = {"s": [], "f": [], "g": []}
        for a in s.ops[:k]:
            for key, o in (("s", "strm"), ("f", "fa"), ("g", "mk")):
                if a["o"] == o:
                    have[key].append(a["r"])
        if shared is not None:
            have["f"].append(shared["n"])
        keys = [x for x in "ssffg" if have[x]]
        if not keys:
            continue
        x = r.choice(keys)
        what = r.choice(BAD[x])
        if what in ("term", "rc") and shared is not None:
            what = "ptsout"
        name = r.choice(have[x][-3:])
        s.ops.insert(k, {"o": "bad", x: name, "k": what, "v": r.randint(0, 1)})


def _query_only(s, f, prop):
    r = s.r
    what = {"C05": "ws", "C06": "sub", "C07": "terrain", "C04": "nidp"}.get(prop)
    for _ in range(r.randint(2, 5)):
        if what and r.random() < 0.7:
            s.query(f, what)
        elif r.random() < 0.75:
            s.query(f)
        else:
            # a stream object of its own made from the shared directions
            st = s.strm(f)
            s.delin(st)
            for _ in range(r.randint(1, 2)):
                s.export(st)


# properties that also look at grids of more than 32767 cells and at flow paths
# of more than 10000
HUGE = RIVER + ("C01", "C18")


def huge(prop, seed):
    return prop in HUGE and seed % 450 == 225


def _make_huge(gen, r, prop):
    line = gen.seed // 450 % 2 == 1
    kind = "s" if prop in ("C10", "C11") or r.random() < 0.6 else r.choice("vu")
    if line:
        n = r.randint(10_100, 10_900)
        nr, nc = (1, n) if r.random() < 0.7 else (n, 1)
    else:
        nr = r.randint(180, 190)
        nc = 33_000 // nr + 1
    slow = prop == "C01" and gen.seed // 900 % 2 == 1
    if slow:
        # more than a thousand sweeps
        kind, nr, nc = "s", 3, r.randint(180, 200)
        if r.random() < 0.5:
            nr, nc = nc, nr
    flat = prop == "C18" and gen.seed // 900 % 2 == 1
    if flat:
        line, nr, nc = False, r.randint(70, 76), r.randint(70, 76)
    dx = r.choice([1.0, 10.0, 33.5])
    gen.add_mesh({"kind": kind, "delr": [dx] * nc, "delc": [dx] * nr})
    n = gen._m["M0"].n
    s = Script(gen, "a")
    g = s.grid("M0")

    def dem(style):
        d = s.name("d")
        s.add(o="dem", g="M0", r=d, z=[style, r.randrange(1 << 30)])
        return d

    rough = "bed" if line else "hill"
    if slow:
        s.fill(g, dem("rand"))
        s.ops[-1].update(method="drain", eps=r.choice([1.0, 5.0]))
        for x in ("mask", "buf", "mfmt", "mnum"):
            s.ops[-1].pop(x, None)
    elif flat:
        for st in r.sample(["flat", "flat1", "flat9"], 2):
            f = {"n": s.name("a"), "g": g, "fd": {}, "src": "raw", "d": dem(st)}
            s.add(o="fa", g=g, d=f["d"], r=f["n"], check=False)
            s.fas.append(f)
            s.add(o="fdir", f=f["n"], raw=1)
    elif prop == "C01":
        for meth in r.sample(["priority", "complete"], 2):
            s.fill(g, dem(rough))
            s.ops[-1].update(method=meth)
    elif prop == "C02":
        for _ in range(2):
            d = dem(r.choice(["up?", "hill?"]))
            s.add(o="fillnan", g=g, d=d, r=s.name("n"),
                  method=r.choice(["mean", "median", "min", "max"]))
    else:
        d = dem(r.choice(["up", "down"] if line else ["tree", "hill"]))
        if s.ops[-1]["z"][0] == "hill":
            d = s.fill(g, d)
            for x in ("mask", "buf", "mfmt", "mnum"):
                s.ops[-1].pop(x, None)
            s.ops[-1].update(eps=1e-3, method="priority")
        f = {"n": s.name("a"), "g": g, "fd": {"minima": True}, "src": "huge",
             "d": d}
        s.add(o="fa", g=g, d=d, r=f["n"], check=False)
        s.fas.append(f)
        s.add(o="fdir", f=f["n"], minima=True)
        low = 0
        if prop in ("C05", "C06"):
            z = next(x["z"] for x in s.ops if "z" in x)
            z = wide_dem(gen._m["M0"], *z)
            low = z.index(min(z))
        if prop == "C04":
            s.query(f, "nidp")
        s.add(o="facc", f=f["n"], cells=r.choice([True, False]))
        if prop in ("C05", "C06", "C07"):
            what = {"C05": "ws", "C06": "sub", "C07": "terrain"}[prop]
            for k in range(3):
                s.query(f, what)
                if what == "sub":
                    s.ops[-1]["cs"] = s.ops[-1]["cs"][:6] + [low]
                if what == "ws":
                    s.ops[-1]["c"] = [low, n - 1, r.randrange(n)][k]
        elif prop not in ("C03", "C04"):
            kind = {"C08": "sfr6", "C09": "sfr6", "C10": "sfr2005",
                    "C11": "sfr2005", "C12": "prms"}.get(prop) or r.choice(
                ["sfr6", "sfr2005", "prms"])
            st = s.strm(f, kind)
            top = [0.97, 0.98, 0.995, 0.999] if not line else [0.0, 0.5, 0.99]
            if prop in ("C08", "C18"):
                s.add(o="ctrl", s=st["n"], r=s.name("t"), t=1e12,
                      cs=[r.randrange(n), r.choice([0, n - 1])], form="tuple")
                if line:
                    s.add(o="delin", s=st["n"], tv=s.ops[-1]["r"])
            s.add(o="delin", s=st["n"], t=0, rank=r.choice(top))
            for what in {"C09": ["conn", "cdata", "pdata"],
                         "C10": ["conn", "rdata", "sdata"],
                         "C11": ["irun"], "C12": ["casc"], "C08": ["getarr"],
                         "C18": [None, None]}[prop]:
                s.export(st, what)
                for x in ("x", "fmt", "own", "b", "bv", "bfmt", "sg"):
                    s.ops[-1].pop(x, None)
    return gen.scenario(s.ops[:1], [s.ops[1:]], [], mode="serial", prop=prop,
                        shared=False, huge=not flat,
                        budget=60_000_000 if flat else 12_000_000,
                        envseed=r.randrange(1 << 30))


def _make_disk(gen, r, seed, prop):
    """builder objects saved, overwritten and read back"""
    mode = r.choices(["serial", "fault", "inter", "both"], [2, 6, 1, 1])[0]
    setup = Script(gen, "u")
    sp = gen_mesh(r, r.choice(["tiny", "small", "small", "mid"]), "s")
    gen.add_mesh(sp)
    g = setup.grid("M0")
    objs = []
    for _ in range(r.randint(1, 2)):
        f = setup.fa(g)
        setup.facc(f)
        st = setup.strm(f, r.choice(["sfr2005", "prms"]))
        setup.add(o="delin", s=st["n"], t=0)
        for _ in range(r.randint(1, 2)):
            setup.export(st, "build")
    objs = setup.objs
    # names that share a stem, a suffix or a prefix; each file belongs to one
    # session
    names = ["p.bin", "p.dat", "p", "q.bin", "p.bin.old", "q"]
    r.shuffle(names)
    sessions = []
    nsess = 2 if mode in ("inter", "both") else 1
    for k in range(nsess):
        s = Script(gen, "abc"[k])
        mine = [names.pop() for _ in range(r.randint(1, 3))]
        pool = [(n, c) for n, c in objs]
        shared = len(objs) < nsess
        if nsess > 1:
            pool = pool[k::nsess]
            if not pool:
                pool, shared = [objs[0]], True
        cls = {}
        for _ in range(r.randint(2, 7)):
            u = r.random()
            n, c = r.choice(pool)
            p = r.choice(mine)
            if u < 0.55 or p not in cls:
                if r.random() < 0.35 and not shared:
                    s.add(o="tag", x=n, v=r.randint(0, 3000),
                          new=r.choice([None, "extra", "weights", "edit", "edit",
                                         "field", "_note", "__version__",
                                         "Extra"]))
                s.add(o="write", x=n, p=p, pathlib=r.choice([None, None, True]))
                cls[p] = c
            elif u < 0.9:
                s.add(o="read", p=p, cls=r.choice([cls[p], cls[p], "S", "C"]),
                      pathlib=r.choice([None, None, True]))
            else:
                m = s.name("o")
                s.add(o="read", p=p, cls=cls[p], r=m)
                pool.append((m, cls[p]))
        for a in s.ops:
            if a["o"] == "write" and r.random() < 0.35:
                a["giveup"] = 1
        s.cls = cls
        sessions.append(s)
    closing = Script(gen, "z")
    for s in sessions:
        for p, c in s.cls.items():
            for _ in range(r.choice([1, 1, 2])):
                closing.add(o="read", p=p, cls=c)
            if r.random() < 0.5 and objs:
                n, c = r.choice(objs)
                closing.add(o="write", x=n, p=p)
                closing.add(o="read", p=p, cls=c)
    return gen.scenario(
        setup.ops, [s.ops for s in sessions], closing.ops, mode=mode,
        prop=prop, disk=1, buffer=r.choice([16, 64, 512, 8192]),
        envseed=r.randrange(1 << 30))
