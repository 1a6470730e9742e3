"""Coordinator: seeded search over scenarios, one forked process per scenario; shrinking, replay files, evidence."""
import glob
import json
import os
import re
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import seams

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENGINE = tuple(f"C{i:02d}" for i in range(1, 16)) + ("C24", "C25", "C27", "C28", "C29", "C31")
now = seams.REAL.monotonic
JOBS = int(os.environ.get("DST_JOBS") or min(8, len(os.sched_getaffinity(0))))

# number of scenarios of a quick run (deterministic), seconds of a thorough run
QUICK = {"C01": 2000, "C02": 2000, "C03": 6000, "C04": 4000, "C05": 5000, "C06": 2400, "C07": 8000, "C08": 1300, "C09": 2600,
         "C10": 20000, "C11": 5000, "C12": 1100, "C13": 16000, "C14": 9000, "C15": 11000, "C16": 1600, "C17": 800, "C18": 1100,
         "C19": 900, "C20": 400, "C21": 2000, "C22": 1300, "C24": 2000, "C25": 2500, "C26": 900, "C27": 12000, "C28": 1000, "C29": 6000,
         "C30": 1200, "C31": 3000}
THOROUGH_S = 780
HANG_PROPS = {"C07", "C09", "C12", "C13", "C14", "C15", "C16", "C19"}
WALL = 90.0
LINE_BUDGET = 40_000_000
MAX_STATES = 3000


# every n-th scenario of these properties is a whole deployment / a set of interpreters instead of a history of operations
MIXED = {"C11": 12, "C14": 10}
HASHSEED_EVERY = 150


def worlds_of(prop):
    if prop in MIXED:
        return ("engine", "ensemble") + (("hashseed",) if prop == "C11" else ())
    return ("engine",) if prop in ENGINE else ("ensemble",)


def generate(prop, seed, i, tier):
    from . import gen, egen
    if prop == "C11" and i % HASHSEED_EVERY == 5:
        from . import hashseed
        return hashseed.scenario(seed, i)
    if prop not in ENGINE or (prop in MIXED and i % MIXED[prop] == 3):
        return egen.scenario(prop, seed, i, tier)
    return gen.scenario(prop, seed, i, tier)


def execute(sc, budget=None):
    """run one scenario in this process; returns a result"""
    from . import engine
    res = {"status": "ok"}
    if budget:
        seams.LINES.arm_budget(budget)
    if sc["world"] == "engine":
        w = engine.Engine(sc)
    elif sc["world"] == "hashseed":
        from . import hashseed
        w = hashseed.World(sc)
    else:
        from . import ensemble
        w = ensemble.World(sc)
    try:
        w.execute()
    except engine.Violation as v:
        res = {"status": "violation", "kind": v.kind, "detail": v.detail}
    except engine.Inconclusive as e:
        res = {"status": "inconclusive", "detail": str(e)}
    except seams.CapReached as e:
        res = {"status": "hang", "detail": str(e)}
    except BaseException:
        res = {"status": "error", "detail": traceback.format_exc()[-3000:]}
    finally:
        seams.LINES.stop(final=True)
    res["stats"] = w.stats
    res["trace"] = w.trace.hexdigest()
    res["states"] = list(w.states)[:MAX_STATES]
    return res


# ------------------------------------------------------------------------------------------------ children

class Child:
    def __init__(self, sc, tag, budget=None, wall=WALL):
        self.sc, self.tag, self.t0, self.wall, self.buf = sc, tag, now(), wall, []
        r, w = os.pipe()
        self.pid = seams.REAL.fork()
        if self.pid == 0:
            try:
                os.close(r)
                os.setsid()
                null = seams.REAL.os_open("/dev/null", os.O_RDWR)
                for fd in ((0, 1) if os.environ.get("DST_DEBUG") else (0, 1, 2)):
                    os.dup2(null, fd)
                sys.stdout = seams.REAL.open(1, "w", closefd=False)
                sys.stderr = seams.REAL.open(2, "w", closefd=False)
                res = execute(sc, budget)
                data = json.dumps(res).encode()
                mv = memoryview(data)
                while mv:
                    mv = mv[seams.REAL.os_write(w, mv):]
            except BaseException:
                try:
                    seams.REAL.os_write(w, json.dumps({"status": "error", "detail": traceback.format_exc()[-3000:], "stats": {},
                                                       "trace": "", "states": []}).encode())
                except BaseException:
                    pass
            finally:
                os._exit(0)
        os.close(w)
        self.fd = r

    def kill(self):
        for f in (os.killpg, os.kill):
            try:
                f(self.pid, signal.SIGKILL)
            except OSError:
                pass

    def result(self, timed_out=False):
        os.close(self.fd)
        self.kill()
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        if timed_out:
            return {"status": "timeout", "detail": "wall-clock limit", "stats": {}, "trace": "", "states": []}
        try:
            return json.loads(b"".join(self.buf))
        except ValueError:
            return {"status": "error", "detail": "the scenario's process ended without a result", "stats": {}, "trace": "",
                    "states": []}


def pool(scenarios, jobs, until=None, budget=None, wall=WALL):
    """yields (tag, scenario, result, seconds); scenarios is an iterator of (tag, scenario)"""
    live, done = {}, False
    it = iter(scenarios)
    try:
        while True:
            while not done and len(live) < jobs:
                if until is not None and now() > until:
                    done = True
                    break
                try:
                    tag, sc = next(it)
                except StopIteration:
                    done = True
                    break
                c = Child(sc, tag, budget, wall)
                live[c.fd] = c
            if not live:
                return
            ready, _, _ = select.select(list(live), [], [], 1.0)
            for fd in ready:
                c = live[fd]
                d = os.read(fd, 1 << 20)
                if d:
                    c.buf.append(d)
                else:
                    del live[fd]
                    yield c.tag, c.sc, c.result(), now() - c.t0
            for fd, c in list(live.items()):
                if now() - c.t0 > c.wall:
                    del live[fd]
                    c.kill()
                    yield c.tag, c.sc, c.result(True), now() - c.t0
    finally:
        for c in live.values():
            c.kill()
            c.result(True)


def one(sc, budget=None, wall=WALL):
    for _, _, res, _ in pool([(0, sc)], 1, budget=budget, wall=wall):
        return res


def segments(sc):
    """every single realization of the scenario as one of a fresh, lonely simulation"""
    new, segs, cur, custom = {}, [], {}, {}

    def end(key):
        if any(o[0] in ("place", "finish", "run") for o in cur.get(key, ())):
            segs.append([new[key]] + cur[key])
        cur[key] = [custom[key]] if key in custom else []

    def walk(op):
        n = op[0]
        if n == "new":
            new[op[1]], cur[op[1]] = op, []
        elif n == "reset":
            end(op[1])
        elif n == "custom":
            end(op[1])
            o = list(op[:5])
            custom[op[1]] = o
            cur[op[1]] = [o]
        elif n in ("place", "finish", "run"):
            cur[op[1]].append([n, op[1]] + ([op[2]] if n == "place" else []))
        elif n == "intr":
            walk(op[2]) if op[2][0] != "reset" else end(op[1])
            end(op[1])
        elif n == "threads":
            for b in op[1]:
                for o in b:
                    walk(o)
        elif n == "interleave":
            for key, what in op[1]:
                walk([what, key, 1] if what == "place" else [what, key])
            for key in {k for k, _ in op[1]}:
                walk(["finish", key])
    for op in sc["ops"]:
        walk(op)
    for key in list(cur):
        end(key)
    return segs


def broken_alone(sc, kind):
    if kind in ("differs-from-fresh", "differs-from-alone", "input-modified", "no-termination"):
        return False
    scs = []
    for k in range(3):
        for seg in segments(sc)[:12]:
            scs.append((len(scs), {"world": "engine", "prop": "C12", "entropy": f"{sc['entropy']}/alone{k}",
                                   "rng": sc.get("rng", {"mode": "fair"}), "ops": seg}))
    return any(r["status"] == "violation" and r["kind"] == kind for _, _, r, _ in pool(scs, JOBS, wall=30.0))


# ---------------------------------------------------------------------------------------------- shrinking

def shrink(sc, res, seconds=40.0):
    from . import shrinker
    end = now() + seconds
    best, bres = sc, res
    tried = 0
    improved = True
    while improved and now() < end:
        improved = False
        cands = [c for c in shrinker.candidates(best)]
        for k in range(0, len(cands), JOBS):
            if now() > end:
                break
            batch = cands[k:k + JOBS]
            outs = {}
            for tag, c, r, _ in pool(list(enumerate(batch)), JOBS, wall=30.0):
                outs[tag] = r
                tried += 1
            for j in range(len(batch)):
                r = outs.get(j)
                if r and r["status"] == "violation" and r["kind"] == res["kind"]:
                    best, bres, improved = batch[j], r, True
                    break
            if improved:
                break
    return best, bres, tried


def merge(total, stats):
    for k, v in stats.items():
        if isinstance(v, dict):
            merge(total.setdefault(k, {}), v)
        elif isinstance(v, (int, float)):
            total[k] = total.get(k, 0) + v


def known_findings(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    try:
        with open(p) as f:
            return [e for e in json.load(f) if e["property"] == prop and e["status"] == "known"]
    except FileNotFoundError:
        return []


def write_replay(prop, sc, res, extra):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    import hashlib
    name = f"{prop}-{hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:10]}.json"
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump({"property": prop, "kind": res["kind"], "detail": res["detail"], "trace": res["trace"], "scenario": sc,
                   **extra}, f, indent=1)
        f.write("\n")
    return path


# --------------------------------------------------------------------------------------------------- main

def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = now()
    prepare(prop)
    corpus = []
    for p in sorted(glob.glob(os.path.join(VERIF, "corpus", f"{prop}-*.json"))):
        with open(p) as f:
            corpus.append((os.path.basename(p), json.load(f)["scenario"]))
    n = int(os.environ.get("DST_RUNS") or QUICK[prop])
    until = None
    if tier == "thorough":
        until = t0 + float(os.environ.get("DST_SECONDS") or THOROUGH_S)
        n = 10 ** 9

    def source():
        yield from corpus
        i = 0
        while i < n:
            yield i, generate(prop, seed, i, tier)
            i += 1

    total, traces, states = {}, {}, set()
    status = {}
    viol, errors, samples, hangs = [], [], [], []
    runs = 0
    others = 0
    stop_at = None
    gen = pool(source(), JOBS, until)
    for tag, sc, res, sec in gen:
        runs += 1
        st = res["status"]
        status[st] = status.get(st, 0) + 1
        merge(total, res.get("stats", {}))
        nontriv = nontrivial(sc, res)
        if res["trace"]:
            traces[res["trace"]] = max(traces.get(res["trace"], 0), nontriv)
        if len(states) < 3_000_000:
            states.update(res["states"])
        if len(samples) < 3 and isinstance(tag, int) and nontriv and len(json.dumps(sc)) < 6000:
            samples.append({"run": tag, "scenario": sc, "status": st, "trace": res["trace"][:16]})
        if st == "violation" and prop in ("C09", "C12") and sc["world"] == "engine" and others < 25 and \
                broken_alone(sc, res["kind"]):
            # the fault shows in a single fresh simulation too: some other property is broken, not this one
            others += 1
            status["other_property"] = status.get("other_property", 0) + 1
            if others >= 25:
                gen.close()
                break
        elif st == "violation":
            viol.append((tag, sc, res))
            if stop_at is None:
                stop_at = now() + (6.0 if tier == "quick" else 30.0)
        elif st == "error":
            errors.append((tag, sc, res))
        elif st in ("timeout", "hang"):
            hangs.append((tag, sc, res))
        if (stop_at is not None and now() > stop_at) or len(errors) > 20 or len(hangs) > 6 or len(viol) > 60:
            gen.close()
            break
    # runs that did not end: decide by a deterministic line budget, never by the wall clock
    for tag, sc, res in hangs[:2]:
        if viol:
            break
        r2 = res if res["status"] == "hang" else one(sc, budget=LINE_BUDGET, wall=250.0)
        if r2["status"] == "hang" and prop in HANG_PROPS:
            r2 = dict(r2, status="violation", kind="no-termination",
                      detail=f"the scenario does not finish within {LINE_BUDGET} executed lines")
            viol.append((tag, sc, r2))
        elif r2["status"] == "violation":
            viol.append((tag, sc, r2))
        elif r2["status"] in ("timeout", "error"):
            errors.append((tag, sc, r2))
    known = known_findings(prop)
    fresh, hit = [], {}
    for v in viol:
        e = next((e for e in known if e.get("kind") == v[2]["kind"] and re.search(e["match"], v[2]["detail"])), None)
        if e is None:
            fresh.append(v)
        else:
            hit[e["what"]] = hit.get(e["what"], 0) + 1
    for e in known:
        print(f"KNOWN-FINDING: property={prop} {e['what']}")
    code, replay = 0, None
    if fresh:
        fresh.sort(key=lambda v: len(json.dumps(v[1])))
        done = False
        for tag, sc, res in fresh[:5]:
            # a violation has to show again; a history that differs then (object addresses deciding something in the code
            # under test, say) is tried more often and reported as such
            again = one(sc)
            exact = again["trace"] == res["trace"]
            for _ in range(3):
                if again["status"] == "violation" and again["kind"] == res["kind"]:
                    break
                again = one(sc)
            if not (again["status"] == "violation" and again["kind"] == res["kind"]) and res["kind"] != "no-termination":
                errors.append((tag, sc, {"detail": f"not reproducible: {res['kind']} then {again['status']}: "
                                                   f"{again.get('detail')}"}))
                continue
            small, sres, tried = (sc, res, 0) if res["kind"] == "no-termination" or not exact else \
                shrink(sc, res, 25.0 if tier == "quick" else 120.0)
            replay = write_replay(prop, small, sres, {"seed": seed, "run": tag, "tier": tier, "shrink_attempts": tried,
                                                      "original": sc if len(json.dumps(sc)) < 200000 else None})
            print(f"{prop}: {sres['kind']}: {sres['detail'][:1500]}")
            print(f"VIOLATION property={prop} replay={replay}")
            code, done = 1, True
            break
        if not done and not errors:
            code = 2
    wall = now() - t0
    write_evidence(prop, tier, seed, runs, len(corpus), status, total, traces, states, samples, wall, len(fresh), hit, viol,
                   replay)
    if errors and code == 0:
        print(f"{prop}: harness error in {len(errors)} runs, e.g. run {errors[0][0]}:\n{errors[0][2]['detail'][-2500:]}")
        code = 2
    if code == 0:
        print(f"{prop} {tier}: {runs} simulated runs, {len(traces)} distinct histories, {len(states)} distinct states, "
              f"{status} in {wall:.1f} s")
    return code


def nontrivial(sc, res):
    s = res.get("stats") or {}
    if res["status"] in ("error", "timeout"):
        return 0
    if sc["world"] != "ensemble":
        return int(s.get("oracle_checks", 0) > 0 and s.get("steps", 0) + s.get("law_paths", 0) + s.get("realizations", 0)
                   + s.get("placed", 0) > 3)
    return int(s.get("oracle_checks", 0) > 0 and s.get("realizations", 0) > 0)


STATES = {"engine": "distinct hashes of (length, occupied set, last site)",
          "ensemble": "distinct hashes of (actors' positions, data-directory content) at scheduling points",
          "hashseed": "distinct digests of results"}
RULES = {
    "hashseed": "A case is a set of seeded programs executed in interpreters with different hash seeds; non-trivial = at least "
                "two interpreters were compared.",
    "engine": "A case is one generated history of operations on real simulation objects with its random draws and faults, "
              "executed in a process of its own; distinct = distinct SHA-256 of the executed history (operations, chosen sites, "
              "results of attempts, interrupts); non-trivial = the property's oracle was evaluated at least once and more than "
              "three placements or draws were made.",
    "ensemble": "A case is one simulated deployment (jobs, worker processes or threads, clock, disk) executed under one schedule "
                "and fault plan; distinct = distinct SHA-256 of the sequence of scheduling decisions, seam operations and faults; "
                "non-trivial = at least one realization ran and the property's oracle was evaluated."}


def write_evidence(prop, tier, seed, runs, ncorpus, status, total, traces, states, samples, wall, nviol, hit, viol, replay):
    ws = worlds_of(prop)
    if not samples and viol:
        samples = [{"run": viol[0][0], "scenario": viol[0][1]}]
    faults = total.pop("faults", {})
    probes = total.pop("probes", {})
    clock = total.pop("sim_seconds", 0.0)
    cov = {"evaluations": runs, "distinct_nontrivial": sum(1 for v in traces.values() if v),
           "rule": " ".join(RULES[w] for w in ws), "samples": samples[:3],
           "status_counts": status, "corpus_scenarios_replayed": ncorpus,
           "runs_per_hour": round(runs / wall * 3600), "seeds_per_hour": round((runs - ncorpus) / wall * 3600),
           "faults_injected": faults, "faults_injected_total": sum(faults.values()),
           "reach_probes": probes, "distinct_states": len(states),
           "state_measure": "; ".join(STATES[w] for w in ws),
           "counters": total, "known_findings_hit": hit,
           "components": {w: components(w) for w in ws}}
    if "ensemble" in ws:
        cov["simulated_seconds_covered"] = round(clock, 1)
    else:
        cov["simulated_time"] = "the engine has no timers; time is counted in placement attempts and executed lines"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["seeded search: holds on the explored runs, not a proof",
                          "the reference model in dst/model.py is right (validated against an independent brute-force "
                          "recomputation by the self test and, sampled, inside the checks)"],
          "wall_s": round(wall, 2), "violations": nviol}
    if replay:
        ev["coverage"]["replay"] = replay
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def components(w):
    if w == "hashseed":
        return {"real": ["several separate interpreters", "source_py/simulation/* (all classes, unmodified)"],
                "simulated": ["random generator and OS entropy", "hash seed of the interpreter"], "stub": []}
    if w == "engine":
        return {"real": ["source_py/simulation/* (all classes, unmodified)", "python random.shuffle/randint on top of the "
                         "simulated generator", "numpy"],
                "simulated": ["random generator and OS entropy", "thread scheduling (line-level preemption)",
                              "asynchronous interrupts and allocation failures", "clock"], "stub": []}
    return {"real": ["run_py/* and main.py (unmodified)", "source_py/simulation/*", "numpy.savetxt", "json", "logging",
                     "kernel processes and files of a scratch directory"],
            "simulated": ["scheduling of jobs, worker processes and threads", "clock", "OS entropy and random seeding at "
                          "process start and fork", "file-system faults, crashes and power loss", "process creation, join and "
                          "exit status"], "stub": []}


def prepare(prop):
    seams.install()
    ws = worlds_of(prop)
    if "engine" in ws:
        out = sys.stdout
        sys.stdout = seams.REAL.open("/dev/null", "w")
        try:
            from . import engine
            engine.classes()
        finally:
            sys.stdout = out
    if "ensemble" in ws:
        from . import ensemble
        ensemble.prepare()


def replay(path):
    with open(path) as f:
        d = json.load(f)
    prop, sc = d["property"], d["scenario"]
    prepare(prop)
    r = one(sc, budget=LINE_BUDGET if d["kind"] == "no-termination" else None, wall=600.0)
    if r["status"] == "hang":
        r.update(status="violation", kind="no-termination")
    print(json.dumps({k: r.get(k) for k in ("status", "kind", "detail", "trace")}, indent=1))
    if r["status"] == "violation":
        print("same trace" if r["trace"] == d["trace"] else "different trace")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0 if r["status"] in ("ok", "inconclusive") else 2


def main():
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        return replay(a[1])
    if a[:1] == ["--selftest"]:
        from . import selftest
        return selftest.main(a[1:])
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(prop, tier)


def scratch():
    base = "/tmp" if os.access("/tmp", os.W_OK) else tempfile.gettempdir()
    d = tempfile.mkdtemp(prefix="dst", dir=base)
    os.environ["DST_SCRATCH"] = d
    sys.pycache_prefix = os.path.join(d, "pyc")     # compile the repository once per check, and never into /repo
    sys.dont_write_bytecode = False
    return d


if __name__ == "__main__":
    top = scratch()
    for sg in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
        signal.signal(sg, lambda *a: sys.exit(3))
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    except SystemExit as e:
        code = e.code or 3
    finally:
        shutil.rmtree(top, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)
