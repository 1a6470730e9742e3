"""Scenario generators of the ensemble world."""
from .seams import REAL


def clock(r, kinds=("tick", "tick", "frozen", "coarse", "back", "edge")):
    k = r.choice(kinds)
    start = 1_700_000_000.0 + r.randrange(10 ** 7)
    if r.random() < 0.3:    # any year, and the first and last seconds of years
        start = r.choice([r.randrange(4 * 10 ** 9), r.choice([1_735_689_600, 1_704_067_200, 946_684_800, 2_147_483_648])
                          - r.randint(0, 2)]) + r.random()
    if k == "edge":         # just before midnight, and readings that cross it
        start = 1_700_006_400.0 - r.random() * 0.3
        return {"mode": "tick", "by": r.choice([0.05, 0.5, 2.0]), "start": start}
    c = {"mode": k, "start": start}
    if k == "tick":
        c["by"] = r.choice([0.001, 0.02, 0.3])
    return c


def sched(r):
    k = r.choice(["random", "random", "sticky", "sticky", "pct", "pct", "rr", "serial"])
    s = {"mode": k}
    if k == "sticky":
        s["p"] = r.choice([0.02, 0.1, 0.3])
    if k == "pct":
        s["p"] = r.choice([0.005, 0.02, 0.1])
    return s


CLS = ("L0", "L0", "L1", "L2", "Base")


def job(r, entries, lo=3, hi=6, max_en=7, seed_p=0.0):
    e = r.choice(entries)
    L = r.randint(lo, hi)
    j = {"entry": e, "length": L, "En": r.randint(1, max_en)}
    if e in ("v3", "v4", "sp"):
        j["thread"] = r.choice([1, 2, 2, 3, 3, 4, 5])
        if e == "v4":
            j["interaction"] = r.choice([0, 1, 2])
    elif e in ("ens", "ens_t", "ens_v2", "single"):
        j["cls"] = r.choice(CLS)
        j["thread"] = r.randint(0, 3)
    elif e == "sp_demo":
        j["length"], j["En"] = 6, 1
    elif e == "sp_v2":
        j["thread"] = r.randint(0, 3)
    elif e == "main":
        j.update(thread=2, interaction=1)
    elif e == "user_threads":
        j["fn"] = r.choice(["ens_t", "ens_v2"])
        j["parts"] = [[r.choice(CLS), r.randint(lo, hi), r.randint(1, 4)] for _ in range(r.randint(2, 4))]
        j["preempt"] = r.choice([200, 1000, 5000])
        j["length"], j["En"] = max(p[1] for p in j["parts"]), sum(p[2] for p in j["parts"])
    elif e == "multi":
        j["parts"] = []
        for _ in range(r.randint(2, 3)):
            x = job(r, ("ens", "ens_t", "ens_v2", "sp_v2", "single"), lo, hi, 4)
            x.pop("preempt", None)
            if x["entry"] in ("ens_v2", "sp_v2"):
                x.pop("seed", None)
            j["parts"].append(x)
    if seed_p and e in ("ens_v2", "sp_v2") and r.random() < seed_p:
        j["seed"] = r.choice([0, 0, 1, r.randrange(10 ** 6)])
    if e in ("v3", "v4", "sp", "ens_v2") and r.random() < 0.1:
        j["preempt"] = r.choice([500, 3000])
    if r.random() < 0.3:
        j["delay"] = r.randint(1, 60)
    return j


def base(r, prop, seed, i):
    sc = {"world": "ensemble", "prop": prop, "entropy": f"{seed}/{prop}/{i}", "clock": clock(r), "sched": sched(r)}
    if r.random() < 0.1:
        sc["logdir"] = False
    return sc


def scenario(prop, seed, i, tier="quick"):
    r = REAL.Random(f"{prop}/{seed}/{i}/e")
    sc = base(r, prop, seed, i)
    globals()["gen_" + prop](r, sc, i, tier)
    if r.random() < 0.07:
        long(r, r.choice(sc["phases"])["jobs"])
    if prop == "C30" and any(j["entry"] == "main" and j["En"] >= 40 for ph in sc["phases"] for j in ph["jobs"]):
        sc["clock"]["mode"] = "coarse"
    return sc


def long(r, jobs):
    """few realizations of a larger lattice"""
    L = r.choice([10, 10, 11, 12, 16, 20, 23, 32])
    for j in [p for j in jobs for p in (j.get("parts", []) if j["entry"] == "multi" else [j])]:
        if r.random() < 0.3 or j["entry"] in ("threads", "threads_v2"):
            continue
        if j["entry"] == "user_threads":
            j["parts"] = [[p[0], min(L, 12), 1] for p in j["parts"][:2]]
            j["preempt"] = 5000
        else:
            j["length"], j["En"] = L, min(j["En"], 2 if j["entry"] not in PAR else j["thread"])
            j.pop("preempt", None)


def phases(r, sc, n, make):
    sc["phases"] = []
    for k in range(n):
        ph = make(k)
        if k and r.random() < 0.5:
            ph["reboot"] = True     # process ids and the monotonic clock start over
        if k and r.random() < 0.35:
            ph["clock_to"] = r.choice([0.0, 0.0, -5.0, 0.5])      # the clock shows an earlier time again
        sc["phases"].append(ph)


def big(r, j):
    """many realizations of a small lattice, many workers"""
    if j["entry"] in ("single", "multi", "user_threads", "main", "sims"):
        return
    j["length"], j["En"] = 3, r.choice([25, 40, 64, 101, 130, 130, 260, 1001])
    if j["entry"] in PAR:
        j["thread"] = r.choice([3, 8, 10, 11, 12, 13, 24, 40])
    j.pop("preempt", None)


ALL = ("v3", "v4", "v4", "sp", "ens", "ens_t", "ens_v2", "sp_v2", "single", "main", "user_threads", "multi", "sims")
PAR = ("v3", "v4", "v4", "sp")


def gen_C16(r, sc, i, tier):
    x = r.random()
    if x < 0.06:
        sc["phases"] = [{"jobs": [{"entry": r.choice(["threads", "threads_v2"]), "length": 3, "En": 1}]}]
        return
    jobs = [job(r, PAR + ("ens", "ens_v2", "ens_t", "sp_v2", "main") if r.random() < 0.25 else PAR, hi=5, max_en=11)
            for _ in range(r.choice([1, 1, 1, 2]))]
    for j in jobs:
        if j["entry"] in PAR:
            j["thread"] = r.choice([1, 2, 3, 4, 5, 6, 7, 9])
            if r.random() < 0.15:
                j["En"] = r.randint(1, 3)
            elif r.random() < 0.06:
                big(r, j)
    sc["phases"] = [{"jobs": jobs}]


def gen_C17(r, sc, i, tier):
    sc["clock"] = clock(r, ("frozen", "frozen", "tick", "back", "coarse"))
    sc["datadir"] = "missing" if r.random() < 0.3 else "present"
    same = job(r, ALL, hi=5, max_en=4) if r.random() < 0.6 else None

    def make(k):
        jobs = [dict(same) if same and r.random() < 0.8 else job(r, ALL, hi=5, max_en=4) for _ in range(r.choice([1, 2, 2, 3]))]
        for j in jobs:
            j.pop("delay", None)
            if r.random() < 0.3:
                j["delay"] = r.randint(1, 60)
            if r.random() < 0.02:
                big(r, j)
        ph = {"jobs": jobs, "faults": []}
        if r.random() < 0.3:
            # a crashed run leaves things behind
            ph["faults"] = [r.choice([{"kind": "die_fs", "n": r.randint(1, 12), "part": round(r.random(), 2)},
                                      {"kind": "die_step", "n": r.randint(1, 60)},
                                      {"kind": "errno", "errno": r.choice(["ENOSPC", "EIO"]), "n": r.randint(1, 12),
                                       "part": round(r.random(), 2)}])]
        return ph
    phases(r, sc, r.choice([1, 2, 2, 3]), make)


def disk_fault(r, top=14):
    k = r.random()
    part = r.choice([0, 0, round(r.random(), 2)])
    if k < 0.3:
        return {"kind": "errno", "errno": r.choice(["ENOSPC", "EIO", "ENOSPC", "EDQUOT"]), "op": "write", "n": r.randint(1, 6),
                "count": r.choice([1, 1, 2, 50]), "part": part}
    if k < 0.5:
        return {"kind": "errno", "errno": r.choice(["ENOSPC", "EIO", "EMFILE", "EACCES"]), "n": r.randint(1, top),
                "count": r.choice([1, 1, 3])}
    if k < 0.7:
        return {"kind": "errno", "errno": r.choice(["ENOSPC", "EIO"]),
                "op": r.choice(["open", "os_open", "fsync", "close", "rename", "replace", "link", "mkdir"]),
                "n": r.randint(1, 4)}
    if k < 0.8:
        return {"kind": "short", "n": r.randint(1, 5), "count": r.choice([1, 2]), "part": round(r.random(), 2)}
    return {"kind": "die_fs", "n": r.randint(1, top), "part": round(r.random(), 2)}


def gen_C18(r, sc, i, tier):
    sc["datadir"] = "missing" if r.random() < 0.15 else "present"

    def make(k):
        jobs = [job(r, ALL, hi=r.choice([5, 5, 12]), max_en=3 if r.random() < 0.7 else 8) for _ in range(r.choice([1, 1, 2]))]
        ph = {"jobs": jobs, "faults": []}
        x = r.random()
        if x < 0.55:
            ph["faults"] = [disk_fault(r) for _ in range(r.choice([1, 1, 2]))]
        elif x < 0.8:
            ph["faults"] = [{"kind": "power", "n": r.randint(5, 140)}]
        elif x < 0.9:
            ph["faults"] = [{"kind": "die_step", "n": r.randint(1, 80)}]
        if r.random() < 0.15:
            ph["faults"].append({"kind": "stall", "n": r.randint(1, 60), "len": r.randint(5, 200)})
        return ph
    phases(r, sc, r.choice([1, 2, 2]), make)


def gen_C19(r, sc, i, tier):
    def make_job():
        j = job(r, PAR + (("main",) if r.random() < 0.1 else ()), hi=5, max_en=8)
        if j["entry"] in PAR:
            j["thread"] = r.choice([1, 2, 2, 3, 4])
            if r.random() < 0.04:
                big(r, j)
            j["En"] = max(j["En"], j["thread"])
        return j
    j = make_job()
    ph = {"jobs": [j], "faults": []}
    if r.random() < 0.25:
        ph["jobs"].append(make_job())
    x = r.random()
    if x < 0.25:
        ph["faults"] = [{"kind": "die_step", "n": r.randint(1, 70)} for _ in range(r.choice([1, 1, 2]))]
    elif x < 0.6:
        ph["faults"] = [disk_fault(r)]
    elif x < 0.75:
        ph["faults"] = [{"kind": "mem", "n": r.randint(1, 20)}]
        if r.random() < 0.5:        # anywhere within a realization
            ph["faults"][0].update(inside=True, n=r.randint(1, 60))
            j["preempt"] = r.choice([200, 800])
    elif x < 0.82:
        ph["faults"] = [{"kind": "fork", "n": r.randint(1, 4)}]
    elif x < 0.87:
        ph["faults"] = [{"kind": "stall", "n": r.randint(1, 40), "len": r.randint(20, 400)}]
    elif x < 0.92:
        ph["faults"] = [{"kind": "kill_job", "n": r.randint(1, 12)}]
    elif x < 0.96:
        sc["console"] = True        # every printed line is a step of the schedule, and may fail
        for jj in ph["jobs"]:
            if jj["entry"] == "main" or r.random() < 0.5:
                jj.update(entry="sp", thread=jj.get("thread", 2))
                jj.pop("interaction", None)
        ph["faults"] = [{"kind": "stdout", "n": r.randint(1, 20), "errno": r.choice(["EPIPE", "ENOSPC", "EIO"]),
                         "count": r.choice([1, 1, 50])}]
    again = [dict(x) for x in ph["jobs"]]
    sc["phases"] = [ph, {"jobs": again}]


def gen_C26(r, sc, i, tier):
    sc["datadir"] = "missing" if r.random() < 0.3 else "present"

    def make(k):
        jobs = [job(r, ALL + ("threads", "threads_v2"), hi=5, max_en=5) for _ in range(r.choice([1, 1, 2, 3]))]
        for j in jobs:
            if r.random() < 0.02:
                big(r, j)
        ph = {"jobs": jobs, "faults": []}
        if r.random() < 0.5:
            ph["faults"] = [f for f in (disk_fault(r) for _ in range(r.choice([1, 1, 2]))) if f["kind"] == "errno"]
        if r.random() < 0.15:
            ph["faults"].append({"kind": "stall", "n": r.randint(1, 60), "len": r.randint(5, 200)})
        if r.random() < 0.1:        # no further worker can be started: those that run are waited for
            jobs[:] = [job(r, PAR, hi=5, max_en=5)] + jobs[1:]
            ph["faults"].append({"kind": "fork", "n": r.randint(1, 3)})
        return ph
    phases(r, sc, r.choice([1, 1, 2]), make)


def gen_C20(r, sc, i, tier):
    sc["clock"] = clock(r, ("frozen", "frozen", "tick", "coarse", "back"))
    top = r.choice([5, 5, 5, 12, 24])       # most realizations of one job

    def make(k):
        jobs = [job(r, PAR + ("ens", "ens_t", "ens_v2", "sp_v2", "single", "user_threads", "multi"), lo=5, hi=7 if top == 5 else 5, max_en=top)
                for _ in range(r.choice([1, 2, 3]) if top == 5 else 1)]
        if top == 5 and r.random() < 0.1:
            many = job(r, PAR, lo=5, hi=5)
            many["En"] = many["thread"] = r.choice([8, 11, 12, 17])
            jobs[0] = many
        return {"jobs": jobs}
    phases(r, sc, r.choice([1, 2, 2]), make)
    same = r.random() < 0.5
    if same:
        j0 = sc["phases"][0]["jobs"][0]
        for ph in sc["phases"]:
            ph["jobs"].append(dict(j0))
            if top > 5:
                ph["jobs"] = ph["jobs"][-1:]


def gen_C21(r, sc, i, tier):
    sc["clock"] = clock(r, ("tick", "coarse", "back", "edge", "edge", "frozen"))
    sc["phases"] = [{"jobs": [job(r, ("v3", "v4", "v4", "sp", "ens", "ens_t", "ens_v2", "sp_v2", "single", "main", "multi"),
                                  hi=7, max_en=6, seed_p=0.3)
                              for _ in range(r.choice([1, 2]))]}]
    if r.random() < 0.05:
        big(r, sc["phases"][0]["jobs"][0])


def gen_C30(r, sc, i, tier):
    def make(k):
        jobs = [job(r, ("main", "main", "main", "v3", "v4", "sp", "sp", "ens", "ens_t", "ens_v2", "sp_v2", "sp_v1", "sp_v1", "sp_demo",
                        "multi"), hi=6, max_en=8, seed_p=0.2) for _ in range(r.choice([1, 1, 2, 3]))]
        for j in jobs:
            if j["entry"] == "multi":
                j["parts"] = [p for p in j["parts"] if p["entry"] != "single"] or [dict(entry="ens", length=4, En=2, cls="L0")]
            elif j["entry"] == "sp_demo":
                j.pop("preempt", None)
            elif j["entry"] == "main" and r.random() < 0.05:      # a run of days, when the clock makes hours pass
                j["length"], j["En"] = 3, r.choice([40, 120])
                j.pop("preempt", None)
            elif r.random() < 0.03:
                big(r, j)
        ph = {"jobs": jobs, "faults": []}
        x = r.random()
        if x < 0.15:
            ph["faults"] = [{"kind": "die_step", "n": r.randint(1, 60)}]
        elif x < 0.35:
            ph["faults"] = [disk_fault(r)]
        elif x < 0.42:
            ph["faults"] = [{"kind": "mem", "n": r.randint(1, 20)}]
        elif x < 0.47:
            ph["faults"] = [{"kind": "fork", "n": r.randint(1, 4)}]
        elif x < 0.57:
            ph["faults"] = [{"kind": "stall", "n": r.randint(1, 60), "len": r.randint(5, 200)}]
        elif x < 0.62:
            ph["faults"] = [{"kind": "stdout", "n": r.randint(1, 20), "errno": r.choice(["EPIPE", "ENOSPC", "EIO"])}]
        return ph
    phases(r, sc, r.choice([1, 1, 2]), make)


def gen_C22(r, sc, i, tier):
    def make(k):
        return {"jobs": [job(r, ("v3", "v4", "v4", "sp", "ens", "ens_t", "ens_v2", "sp_v2", "main", "user_threads", "multi"),
                             hi=6, max_en=9, seed_p=0.3)
                         for _ in range(r.choice([1, 1, 2]))]}
    phases(r, sc, r.choice([1, 1, 2]), make)
    if r.random() < 0.09:
        big(r, sc["phases"][0]["jobs"][0])


def gen_C14(r, sc, i, tier):
    sc["phases"] = [{"jobs": [job(r, ("single",), hi=6) for _ in range(2)]}]


def gen_C11(r, sc, i, tier):
    j = job(r, ("ens_v2", "sp_v2"), hi=6, max_en=4)
    j["seed"] = r.choice([0, 0, 1, 7, r.randrange(10 ** 6)])
    j.pop("delay", None)
    others = [job(r, ("ens_v2", "v4", "ens_t"), hi=4, max_en=3) for _ in range(r.choice([0, 1]))]
    sc["phases"] = [{"jobs": [dict(j), *others]}, {"jobs": [dict(j)], "clock_to": 99.0}]
    if r.random() < 0.5:
        sc["phases"][0]["jobs"].append(dict(j, delay=r.randint(1, 50)))
