"""Ensemble world: a whole deployment (jobs, their workers or threads, clock, disk) under one seeded scheduler.

The root process owns time, scheduling and faults.  Every job, worker and thread is a real process/thread running the
repository's unmodified code; it stops at each seam call and continues only when the root says so, one at a time.
"""
import hashlib
import json
import math
import os
import re
import select
import shutil
import signal
import socket

from . import actor, seams
from .engine import Violation, Inconclusive
from .model import series
from .seams import REAL, HarnessError

BASE = None
NAME = re.compile(r"^SitePercolation.*\.txt$")
KINDS = (("_entropy_order_", "entropy"), ("_critical_values_", "critical"), ("_shortest_path_p_", "pstar"),
         ("_percolation_cross_check_data_", "single"))
ENSEMBLES = ("v3", "v4", "sp")
SIGNATURE = {"L0": "SitePercolationL0_", "L1": "SitePercolationL1_", "L2": "SitePercolationL2_",
             "SP": "SitePercolationshortest_path_", "Base": "SitePercolation"}
CLASS = {"L0": "SitePercolationL0", "L1": "SitePercolationL1", "L2": "SitePercolationL2", "SP": "ShortestPathAfter_pc",
         "Base": "SitePercolation"}


def prepare():
    import json as _j, runpy, logging, multiprocessing.util  # noqa: loaded before the seams matter
    import numpy  # noqa
    actor.install()


def kind_of(name):
    for k, v in KINDS:
        if k in name:
            return v
    return None


class Actor:
    def __init__(self, name, kind, job, parent):
        self.name, self.kind, self.job, self.parent = name, kind, job, parent
        self.sock = self.msg = self.pid = self.vpid = None
        self.ended = False
        self.code = None            # None: killed or vanished
        self.killed = None
        self.outcome = self.detail = None
        self.stalled_until = 0
        self.groups = {}            # instance -> list of realizations
        self.last_inst = None
        self.files = []
        self.times = []             # clock readings handed out
        self.faulted = False
        self.open_files = []
        self.requests = []
        self.events = []            # clock readings, realizations and lines of output, in their order (C30)
        self.children = 0


class Job:
    def __init__(self, spec, name):
        self.spec, self.name = spec, name
        self.actors = []
        self.main = None
        self.fork_failed = False
        self.ended_live = None

    @property
    def faulted(self):
        return any(a.faulted or a.killed for a in self.actors) or self.fork_failed


class FileRec:
    def __init__(self, name, phase, writer):
        self.name, self.phase, self.writer = name, phase, writer
        self.complete = False
        self.ident = None
        self.text = None
        self.settled = False
        self.parsed = None
        self.checked = False


class World:
    def __init__(self, sc):
        self.sc, self.prop = sc, sc["prop"]
        self.stats = {"steps": 0, "realizations": 0, "faults": {}, "probes": {}, "oracle_checks": 0, "jobs": 0, "workers": 0,
                      "threads": 0, "files": 0, "switches": 0, "messages": {}, "sim_seconds": 0.0, "phases": 0,
                      "unfired_faults": 0}
        self.states = set()
        self.trace = hashlib.sha256()
        self.rng = REAL.Random("sched/" + sc["entropy"])
        self.impatience = REAL.Random("wait/" + sc["entropy"]).choice((0, 0, 0.02, 0.3))    # timed waits that expire at once
        self.crng = REAL.Random("clock/" + sc["entropy"])
        self.mono = 1000.0
        self.files = {}
        self.jobs = []
        self.actors = []
        self.gstep = 0
        self.synced = {}
        self.vpids = 5000

    # ------------------------------------------------------------------ helpers
    def bad(self, kind, detail):
        raise Violation(self.prop, kind, detail)

    def probe(self, k, n=1):
        self.stats["probes"][k] = self.stats["probes"].get(k, 0) + n

    def fault(self, k):
        self.stats["faults"][k] = self.stats["faults"].get(k, 0) + 1

    def log(self, *a):
        self.trace.update((repr(a) + "\n").encode())

    # ------------------------------------------------------------------ life cycle
    def execute(self):
        base = os.environ.get("DST_SCRATCH") or "/tmp"
        self.top = os.path.join(base, f"w{actor._getpid()}")
        self.root = os.path.join(self.top, "run")
        shutil.rmtree(self.top, ignore_errors=True)         # (left by a killed process of the same number)
        os.makedirs(self.root)
        self.data = os.path.join(self.root, "data")
        self.address = os.path.join(self.top, "s")
        self.server = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.server.bind(self.address)
        self.server.listen(64)
        try:
            if self.sc.get("datadir", "present") != "missing":
                os.mkdir(self.data)
            if self.sc.get("logdir", True):
                os.mkdir(os.path.join(self.root, "logs"))
            self.t0 = self.t = float(self.sc["clock"].get("start", 1_700_000_000.0))
            for i, ph in enumerate(self.sc["phases"]):
                self.phase(i, ph)
            self.final_checks()
        finally:
            for a in self.actors:
                self.kill_real(a)
            self.server.close()
            shutil.rmtree(self.top, ignore_errors=True)

    def kill_real(self, a):
        if a.kind != "thread" and a.pid and not a.ended:
            try:
                actor._kill(a.pid, signal.SIGKILL)
            except OSError:
                pass

    def accept(self, name):
        a = None
        self.server.settimeout(60)
        conn, _ = self.server.accept()
        hello = actor.recv(conn)
        if hello is None or hello["name"] != name:
            raise HarnessError(f"expected {name}, got {hello}")
        return conn, hello["pid"]

    def new_actor(self, name, kind, job, parent):
        a = Actor(name, kind, job, parent)
        self.actors.append(a)
        self.live.append(a)
        job.actors.append(a)
        self.vpids += 1
        a.vpid = self.vpids
        return a

    def phase(self, i, ph):
        self.stats["phases"] += 1
        self.pi = i
        self.ph = ph
        self.live = []
        self.idle = 0
        self.pstep = 0
        self.fs_count = {}
        self.msg_count = {}
        self.faults = [dict(f, left=f.get("count", 1)) for f in ph.get("faults", [])]
        if "clock_to" in ph:
            self.t = self.t0 + ph["clock_to"]
            self.probe("clock_set_between_phases")
        if ph.get("reboot"):
            self.vpids, self.mono = 5000, 1000.0
            self.probe("process_ids_start_over")
        self.pjobs = []
        self.log("phase", i)
        for j, spec in enumerate(ph["jobs"]):
            name = f"p{i}.j{j}"
            job = Job(spec, name)
            self.pjobs.append(job)
            self.jobs.append(job)
            a = self.new_actor(name, "job", job, None)
            job.main = a
            self.stats["jobs"] += 1
            ctx = actor.ActorCtx(self.address, self.root, a.vpid)
            pid = actor._fork()
            if pid == 0:
                self.server.close()
                for b in self.actors:
                    if b.sock is not None:
                        b.sock.close()
                actor.job_main(ctx, name, spec, self.key(name), self.prop in ("C14", "C20"), self.prop == "C20",
                               self.prop == "C30" or bool(self.sc.get("console")))
            a.pid = pid
            a.sock, _ = self.accept(name)
            a.msg = {"op": "begin"}
            a.delay = spec.get("delay", 0)
            a.stalled_until = a.delay
        self.loop()
        for job in self.pjobs:
            self.reap(job)
        self.stats["unfired_faults"] += sum(1 for f in self.faults if not f.get("fired"))
        self.phase_checks(i, ph)

    def key(self, name):
        return f"{self.sc['entropy']}/{name}"

    def reap(self, job):
        try:
            os.waitpid(job.main.pid, 0)
        except ChildProcessError:
            pass

    # ------------------------------------------------------------------ scheduler
    def ready(self, a):
        if a.ended or a.msg is None:
            return False
        m = a.msg
        if m["op"] == "wait" and not m["nohang"]:
            return self.by_vpid(m["vpid"]).ended
        if m["op"] == "join" and m["timeout"] is None:
            return self.by_name(m["name"]).ended
        return True

    def by_vpid(self, v):
        return next(a for a in self.live if a.vpid == v)

    def by_name(self, n):
        return next(a for a in self.actors if a.name == n)

    def loop(self):
        s = self.sc.get("sched", {"mode": "random"})
        mode = s["mode"]
        last = None
        prio = {}
        budget = self.sc.get("max_steps", 400000)
        while True:
            live = [a for a in self.live if not a.ended]
            if not live:
                return
            run = [a for a in live if self.ready(a)]
            if not run:
                self.log("deadlock")
                raise_kind = "C16" if self.prop not in ("C19",) else "C19"
                if self.prop in ("C16", "C19", "C17"):
                    self.bad("deadlock", f"no actor can continue: {[(a.name, a.msg['op']) for a in live]}")
                raise Inconclusive("deadlock")
            self.gstep += 1
            self.pstep += 1
            if self.gstep > budget:
                raise Inconclusive("step budget")
            awake = [a for a in run if a.stalled_until <= self.pstep] or run
            if self.idle > 5000:        # long without a realization or a result: from now on everybody gets a turn
                if self.idle > 25000:
                    self.log("no progress")
                    if self.prop in ("C16", "C17", "C18", "C19"):
                        self.bad("no-progress", f"{self.idle} steps, the last 20000 of them fairly scheduled, without a "
                                                f"realization, a result or an end of a process: "
                                                f"{[(a.name, a.msg.get('name', a.msg['op'])) for a in live]}")
                    raise Inconclusive("no progress")
                a = awake[self.pstep % len(awake)]
            elif mode == "random":
                a = self.rng.choice(awake)
            elif mode == "sticky":
                a = last if last in awake and self.rng.random() > s.get("p", 0.1) else self.rng.choice(awake)
            elif mode == "pct":
                for x in awake:
                    if x.name not in prio:
                        prio[x.name] = self.rng.random()
                if self.rng.random() < s.get("p", 0.02):
                    prio[self.rng.choice(awake).name] = -self.rng.random()
                a = max(awake, key=lambda x: prio[x.name])
            elif mode == "rr":
                a = awake[self.pstep % len(awake)]
            else:                       # serial: one after the other
                a = awake[0]
            if last is not None and a is not last:
                self.stats["switches"] += 1
            last = a
            if self.power_loss_due():
                return
            before = self.stats["realizations"], self.stats["files"], sum(1 for x in self.actors if x.ended), len(self.actors)
            self.step(a)
            after = self.stats["realizations"], self.stats["files"], sum(1 for x in self.actors if x.ended), len(self.actors)
            self.idle = self.idle + 1 if before == after else 0

    def count(self, d, k):
        d[k] = d.get(k, 0) + 1
        return d[k]

    def power_loss_due(self):
        for f in self.faults:
            if f["kind"] == "power" and not f.get("fired") and self.pstep >= f["n"]:
                f["fired"] = True
                self.power_loss()
                return True
        return False

    def step(self, a):
        m, self.running = a.msg, a
        op = m["op"]
        reply = {}
        self.stats["steps"] += 1
        self.count(self.stats["messages"], op if op != "fs" else "fs:" + m["name"])
        self.tick(op)
        act = self.faults_for(a, m)
        note = None
        if act is not None and act.get("do") in ("die", "mem") and op != "fs":
            reply["do"] = act["do"]
            note = act["do"]
            if act["do"] == "mem":
                a.faulted = True
        elif op == "time":
            t = self.mono if m["what"] == "mono" else self.read_clock()
            reply["t"] = t
            a.events.append(("mono" if m["what"] == "mono" else "wall", t))
            if m["what"] == "datetime":
                a.times.append(t)
            note = round(t - self.t0, 3)
        elif op == "sleep":
            self.t += max(0.0, m["s"])
            self.mono += max(0.0, m["s"])
        elif op == "fs":
            if act is not None:
                reply["act"] = act
                note = act
        elif op == "fork":
            if act is not None and act.get("do") == "fail":
                reply["fail"] = True
                a.job.fork_failed = True
                note = "fail"
            else:
                a.children += 1
                child = self.new_actor(f"{a.name}.w{a.children - 1}", "worker", a.job, a)
                self.stats["workers"] += 1
                reply.update(name=child.name, vpid=child.vpid, key=self.key(child.name))
        elif op == "thread":
            a.children += 1
            child = self.new_actor(f"{a.name}.t{a.children - 1}", "thread", a.job, a)
            self.stats["threads"] += 1
            reply["name"] = child.name
        elif op == "poll" and m.get("left") is not None:
            d = 0.05
            if self.rng.random() < self.impatience:
                d = m["left"]
                reply["expired"] = True
                note = "expired"
            self.t += d
            self.mono += d
        elif op == "wait":
            reply["ended"] = self.by_vpid(m["vpid"]).ended
        elif op == "kill":
            v = self.by_vpid(m["vpid"])
            if not v.ended and m["sig"]:
                v.killed = "by the job"
                self.kill_now(v)
        elif op == "realization":
            self.realization(a, m)
            a.events.append(("done", m))
        elif op == "line_out":
            if act is not None:
                reply["errno"] = act["errno"]
            else:
                a.events.append((m["name"], m["text"]))
            note = m["text"], act
        elif op == "request":
            a.requests.append((m["length"], m["En"]))
        self.log(a.name, op, m.get("name"), m.get("path"), m.get("src"), m.get("dst"), m.get("size"), note)
        if op == "realization":
            self.log(m["inst"], m["pc"], m["H"] and m["H"][-2:], m["order"])
        if a.ended:
            return
        # before the operation: what the disk held so far is what others could see
        try:
            actor.send(a.sock, reply)
        except OSError:
            pass
        if op in ("fork", "thread") and "name" in reply:
            child = self.by_name(reply["name"])
            child.sock, pid = self.accept(child.name)
            child.pid = pid if op == "fork" else None
            child.msg = {"op": "begin"}
        self.next_message(a)
        if op == "fs":
            self.after_fs(a, m, act)
        self.monitor(a)
        if self.gstep % 3 == 0:
            self.states.add(hash((tuple((x.name, None if x.ended else x.msg and (x.msg["op"], x.msg.get("path"), x.msg.get("name")))
                                        for x in self.live),
                                  tuple(sorted((n, f.complete) for n, f in self.files.items())))) & 0xffffffffffff)

    def next_message(self, a):
        m = actor.recv(a.sock)
        if m is None and a.kind == "thread":
            # a thread that vanishes took its whole process with it
            owner = self.by_name(a.name.rsplit(".t", 1)[0])
            owner.killed = owner.killed or a.killed or "vanished"
            self.kill_now(owner)
            if owner.kind == "job":
                owner.job.ended_live = [b.name for b in owner.job.actors if not b.ended and b.kind == "worker"]
            a.ended, a.msg = True, None
            self.log(a.name, "ended with its process")
            return
        if m is not None and m["op"] == "end":
            # the program is over; its process may still have to wait for its children
            a.outcome, a.detail = m["outcome"], m["detail"]
            a.open_files = m["open"]
            a.job.ended_live = [b.name for b in a.job.actors if b is not a and not b.ended]
            self.log(a.name, "program over", m["code"], a.outcome)
            return self.next_message(a)
        if m is not None and m["op"] == "exit":
            a.code = m["code"]
            a.outcome, a.detail = m.get("outcome", a.outcome), m.get("detail", a.detail)
            if a.outcome == "harness":
                raise HarnessError(f"{a.name}: {a.detail}")
            m = None
        if m is None:
            a.sock.close()
            a.ended = True
            a.msg = None
            if a.kind == "job" and a.job.ended_live is None:
                a.job.ended_live = [b.name for b in a.job.actors if not b.ended]
            # threads die with their process
            for b in self.live:
                if b.kind == "thread" and not b.ended and b.name.startswith(a.name + ".t"):
                    b.ended = True
            self.log(a.name, "ended", a.code, a.outcome)
        else:
            a.msg = m

    def kill_now(self, v):
        self.kill_real(v)
        if v.kind == "thread":
            return
        while True:
            m = actor.recv(v.sock)
            if m is None:
                break
        v.sock.close()
        v.ended, v.msg = True, None
        for b in self.live:
            if b.kind == "thread" and not b.ended and b.name.startswith(v.name + ".t"):
                b.ended = True
        self.log(v.name, "killed")

    # ------------------------------------------------------------------ time
    def tick(self, op):
        self.mono += 0.001
        c = self.sc["clock"]
        if c["mode"] == "frozen":
            return
        dt = c.get("step", 0.0005)
        self.t += dt
        self.stats["sim_seconds"] += dt

    def read_clock(self):
        c = self.sc["clock"]
        mode = c["mode"]
        r = self.crng
        if mode == "tick":
            dt = r.random() * c.get("by", 0.02)
        elif mode == "coarse":
            dt = r.choice([0.0, 0.0, 0.4, 1.0, 7.0, 3600.0])
        elif mode == "back":
            dt = r.choice([0.1, 0.1, 1.0, -0.5, -1.0, -61.0, -3600.0])
            if dt < 0:
                self.fault("clock_jump_back")
        else:
            dt = 0.0
        if abs(dt) >= 1.0 and dt > 0:
            self.fault("clock_jump_forward")
        if mode == "frozen":
            self.probe("frozen_clock_reading")
        self.t += dt
        self.stats["sim_seconds"] += max(0.0, dt)
        return self.t

    # ------------------------------------------------------------------ faults
    def faults_for(self, a, m):
        op = m["op"]
        in_data = op == "fs" and (m["path"] == "data" or m["path"].startswith("data/"))
        worker = a.kind == "worker" or (a.kind == "job" and a.job.spec["entry"] not in ENSEMBLES + ("main",))
        wn = None
        if worker and op not in ("begin",):
            wn = self.count(self.msg_count, "worker")
        fk = self.count(self.msg_count, "fork") if op == "fork" else None
        wr = None
        fsn = None
        if in_data and m["name"] in ("open", "os_open", "write", "fsync", "fdatasync", "close", "rename", "replace", "link",
                                     "mkdir", "truncate", "ftruncate"):
            fsn = self.count(self.fs_count, "any")
            if m["name"] == "write":
                wr = self.count(self.fs_count, "write")
            byname = self.count(self.fs_count, "n:" + m["name"])
        for f in self.faults:
            if f["left"] <= 0:
                continue
            k = f["kind"]
            if k == "stall":
                if self.pstep >= f["n"]:
                    f["left"], f["fired"] = 0, True
                    a.stalled_until = self.pstep + f["len"]
                    self.fault("stall")
                continue
            if k == "die_step" and wn is not None and wn >= f["n"] and worker:
                f["left"], f["fired"] = 0, True
                a.killed = "injected kill"
                self.fault("worker_killed")
                return {"do": "die"}
            if k == "kill_job" and a.kind == "job" and a.job.spec["entry"] in ENSEMBLES:
                if self.count(self.msg_count, "kj" + a.name) >= f["n"]:
                    f["left"], f["fired"] = 0, True
                    a.killed = "injected kill of the job"
                    self.fault("job_killed")
                    return {"do": "die"}
                continue
            if k == "mem" and worker and op in (("line",) if f.get("inside") else ("time", "realization")):
                f["seen"] = f.get("seen", 0) + 1
                if f["seen"] == f["n"]:
                    f["left"], f["fired"] = 0, True
                    self.fault("alloc_failure")
                    return {"do": "mem"}
                continue
            if k == "fork" and fk is not None and fk == f["n"]:
                f["left"], f["fired"] = 0, True
                self.fault("fork_EAGAIN")
                return {"do": "fail"}
            if k == "stdout" and worker and op == "line_out" and m["name"] == "print":
                f["seen"] = f.get("seen", 0) + 1
                if f["seen"] >= f["n"]:
                    f["left"] -= 1
                    f["fired"] = True
                    a.faulted = True
                    self.fault(f"{f['errno']}@stdout")
                    return {"do": "out", "errno": f["errno"]}
                continue
            if fsn is None:
                continue
            if k == "die_fs" and fsn == f["n"]:
                f["left"], f["fired"] = 0, True
                a.killed = "injected kill at a file operation"
                self.fault("killed_at_" + m["name"])
                return {"do": "die", "n": f.get("part", 0)}
            if k == "errno":
                if f.get("op"):
                    hit = m["name"] == f["op"] and self.fs_count["n:" + m["name"]] >= f["n"]
                else:
                    hit = fsn >= f["n"]
                if hit:
                    f["left"] -= 1
                    f["fired"] = True
                    a.faulted = True
                    self.fault(f"{f['errno']}@{m['name']}")
                    return {"do": "errno", "errno": f["errno"], "n": f.get("part", 0)}
            if k == "short" and wr is not None and wr >= f["n"] and m["size"] > 1:
                f["left"] -= 1
                f["fired"] = True
                self.fault("short_write")
                return {"do": "short", "n": f.get("part", 0.5), "errno": "ENOSPC"}
        return None

    def after_fs(self, a, m, act):
        if m["name"] in ("fsync", "fdatasync") and not act:
            p = os.path.join(self.root, m["path"])
            try:
                st = os.stat(p)
                with REAL.open(p, "rb") as f:
                    self.synced[st.st_ino] = f.read()
            except OSError:
                pass

    def power_loss(self):
        """everything stops at once; contents never synced may be lost in part"""
        self.fault("power_loss")
        r = self.rng
        for a in self.live:
            if not a.ended:
                a.killed = "power loss"
                self.kill_now(a)
        lost = 0
        for dirpath, _, names in os.walk(self.data):
            for n in sorted(names):
                p = os.path.join(dirpath, n)
                st = os.stat(p)
                with REAL.open(p, "rb") as f:
                    cur = f.read()
                if self.synced.get(st.st_ino) == cur or n in self.files and self.files[n].phase < self.pi:
                    continue
                keep = r.choice([0, r.random(), r.random(), 1.0])
                torn = cur[:int(len(cur) * keep)]
                if torn != cur:
                    lost += 1
                    with REAL.open(p, "wb") as f:
                        f.write(torn)
                    if n in self.files:
                        self.files[n].complete = False
                        self.files[n].torn = True
        self.probe("power_loss_tore_files", lost)
        self.log("power loss", lost)
        self.running = None
        self.monitor(None)

    # ------------------------------------------------------------------ history
    def realization(self, a, m):
        self.stats["realizations"] += 1
        a.groups.setdefault(m["inst"], []).append(m)
        a.last_inst = m["inst"]

    # ------------------------------------------------------------------ monitor of the data directory
    def monitor(self, a):
        try:
            with os.scandir(self.data) as it:
                now = {}
                for e in it:
                    if NAME.match(e.name):
                        st = e.stat()
                        now[e.name] = (st.st_ino, st.st_size, st.st_mtime_ns)
        except FileNotFoundError:
            now = {}
        for n in sorted(now):
            rec = self.files.get(n)
            if rec is None:
                rec = self.files[n] = FileRec(n, self.pi, a)
                self.stats["files"] += 1
                if a is not None:
                    a.files.append(rec)
                self.log("file", n)
            if rec.ident == now[n]:
                continue
            rec.ident = now[n]
            with REAL.open(os.path.join(self.data, n), "rb") as f:
                text = f.read()
            if text == rec.text:
                continue
            if rec.settled:
                if self.prop == "C17":
                    self.bad("result-overwritten", f"{n}, complete and written by {rec.writer.name}, was changed during an "
                                                   f"operation of {a.name if a else 'the power loss'}")
                rec.settled = False
                rec.checked = False
                if a is not None:
                    rec.writer = a
                    a.files.append(rec)
            rec.text = text
            rec.complete, why, rec.parsed = parse(n, text)
            self.log("content", n, len(text), rec.complete)
            if self.prop == "C18":
                self.stats["oracle_checks"] += 1
                if not rec.complete:
                    self.bad("incomplete-file", f"{n} exists with incomplete content ({why}) after "
                                                f"{self.describe(a)}")
        for n in list(self.files):
            if n not in now:
                rec = self.files.pop(n)
                self.log("vanished", n)
                if self.prop == "C17" and (rec.settled or rec.complete):
                    self.bad("result-vanished", f"{n}, written by {rec.writer and rec.writer.name}, no longer exists after an "
                                                f"operation of {self.describe(a)}")
                for x in self.actors:
                    if rec in x.files:
                        x.files.remove(rec)
        for rec in self.files.values():
            if not rec.settled and rec.complete and (rec.writer is None or rec.writer.ended or self.prop == "C18"):
                rec.settled = True

    def describe(self, a):
        if a is None:
            return "the power loss"
        m = self.last_op if hasattr(self, "last_op") else None
        return f"{a.name} ({a.job.spec['entry']})" + (f", killed: {a.killed}" if a.killed else "")

    # ------------------------------------------------------------------ checks at the end of a phase
    def phase_checks(self, i, ph):
        self.monitor(None)
        for job in self.pjobs:
            getattr(self, "check_" + self.prop)(job)

    def final_checks(self):
        f = getattr(self, "final_" + self.prop, None)
        if f is not None:
            self.stats["oracle_checks"] += 1
            f()

    def ok_workers(self, job):
        """(actor, instance, realizations) of the ensembles of actors that ended normally, one entry per ensemble"""
        out = []
        for a in job.actors:
            if a.ended and a.code == 0 and not a.killed:
                for inst, rs in a.groups.items():
                    out.append((a, inst, rs))
        return out

    def total_requested(self, spec):
        return spec["En"]

    # ---- C16
    def check_C16(self, job):
        self.stats["oracle_checks"] += 1
        e = job.spec["entry"]
        if job.faulted:
            return
        if job.main.code != 0:
            self.bad("run-failed", f"{describe_job(job.spec)} without any fault ended with {job.main.detail}")
        if e in ("threads", "threads_v2"):
            want = [(200, 500), (300, 500), (400, 500)] if e == "threads" else None
            reqs = [r for a in job.actors for r in a.requests]
            failed = [a.name for a in job.actors if a.kind == "thread" and a.code != 0]
            if failed:
                self.bad("thread-failed", f"{e}: threads {failed} performed no realization")
            if want is not None and sorted(reqs) != want:
                self.bad("ensemble-count", f"{e} requested {sorted(reqs)}, expected {want}")
            if e == "threads_v2" and (sum(r[1] for r in reqs) != 1000 or {r[0] for r in reqs} != {10}):
                self.bad("ensemble-count", f"{e} requested {sorted(reqs)}, expected 1000 realizations of length 10 in all")
            return
        for label, L, En, kinds, groups, files in self.units(job):
            n = sum(len(rs) for _, _, rs in groups)
            what = f"{label}"
            if n != En:
                self.bad("ensemble-count", f"{what}: {n} realizations were performed, {En} were requested "
                                           f"({[len(rs) for _, _, rs in groups]} per worker)")
            for k in kinds:
                fs = [f for f in files if kind_of(f.name) == k]
                tot = sum(f.parsed["head"].get("ensemble_size", -1) for f in fs if f.parsed)
                if tot != En:
                    self.bad("stated-count", f"{what}: the {k} files state {tot} realizations in total "
                                             f"({[f.parsed and f.parsed['head'].get('ensemble_size') for f in fs]}), "
                                             f"{En} were requested")
                if k in ("critical", "pstar"):
                    rows = sum(len(f.parsed["rows"]) for f in fs)
                    if rows != En:
                        self.bad("row-count", f"{what}: the {k} files hold {rows} rows, {En} realizations were requested")
            for a in {g[0] for g in groups}:
                mine = sorted(len(rs) for x, _, rs in groups if x is a)
                for k in kinds:
                    stated = sorted(f.parsed["head"].get("ensemble_size", -1) for f in files
                                    if f.writer is a and f.parsed and kind_of(f.name) == k)
                    en2 = sorted(f.parsed["head"].get("En", -1) for f in files
                                 if f.writer is a and f.parsed and kind_of(f.name) == k)
                    if stated != mine or en2 != mine:
                        self.bad("stated-count", f"{what}: {a.name} performed {mine} realizations, its {k} files state {stated} "
                                                 f"(En: {en2})")
        if any(r[2] for r in self.ok_workers(job)):
            self.probe("uneven_split" if job.spec.get("thread") and (job.spec.get("En") or 0) % job.spec["thread"] else "even_split")
            if job.spec.get("thread") and job.spec["entry"] in ENSEMBLES and job.spec["thread"] > job.spec["En"]:
                self.probe("more_workers_than_realizations")

    def units(self, job):
        """the ensembles a job was asked for: (label, L, En, kinds of files, groups, files)"""
        s = job.spec
        e = s["entry"]
        kinds = {"v3": ("entropy", "critical"), "v4": ("entropy", "critical"), "sp": ("pstar",), "ens": ("entropy", "critical"),
                 "ens_t": ("entropy",), "ens_v2": ("entropy", "critical"), "sp_v2": ("pstar",), "main": ("entropy", "critical"),
                 "sims": ("entropy", "critical")}.get(e)
        if kinds is None:
            return []
        files = [f for a in job.actors for f in a.files]
        return [(describe_job(s), s["length"], s["En"], kinds, self.ok_workers(job), files)]

    # ---- what a finished actor must have left behind
    def expected_files(self, job):
        """[(actor, inst, realizations, kinds)] for every ensemble that completed"""
        e = job.spec["entry"]
        out = []
        if e in ("threads", "threads_v2", "multi", "user_threads"):
            fn = {"user_threads": job.spec.get("fn")}.get(e, "ens_t")
        else:
            fn = e
        for a in job.actors:
            if not (a.ended and a.code == 0 and not a.killed):
                continue
            if e == "multi":
                insts = list(a.groups.items())
                for sub, (inst, rs) in zip(job.spec["parts"], insts):
                    out.append((a, inst, rs, FILES[sub["entry"]]))
                continue
            for inst, rs in a.groups.items():
                out.append((a, inst, rs, FILES[fn]))
        return out

    def match_all(self, prop_kind):
        """every completed ensemble of the whole history still has files with its results, each its own"""
        used = set()
        for job in self.jobs:
            for a, inst, rs, kinds in self.expected_files(job):
                for k in kinds:
                    self.stats["oracle_checks"] += 1
                    got = None
                    for n in sorted(self.files):
                        f = self.files[n]
                        if n in used or kind_of(n) != k or not f.complete:
                            continue
                        if holds(k, f.parsed, rs):
                            got = n
                            break
                    if got is None:
                        have = sorted(n for n in self.files if kind_of(n) == k)
                        self.bad(prop_kind, f"{a.name} of {describe_job(job.spec)} completed {len(rs)} realizations of length "
                                            f"{rs[0]['L']}, but no {k} file of its own holds the results (files: {have[:8]})")
                    used.add(got)

    # ---- C17
    def check_C17(self, job):
        self.match_all("result-lost")
        if job.faulted:
            return
        for a in job.actors:
            if a.ended and a.code not in (0,) and not a.killed and not a.faulted:
                if a.kind == "thread" and job.spec["entry"] in ("threads", "threads_v2") and not a.groups:
                    continue
                if any(a.groups.values()):
                    self.bad("result-lost", f"{a.name} of {describe_job(job.spec)} performed its realizations but failed "
                                            f"to store them ({a.detail or 'exit code ' + str(a.code)})")

    def final_C17(self):
        self.match_all("result-lost")

    # ---- C18: the monitor decides; at the end every result must still be whole
    def check_C18(self, job):
        self.stats["oracle_checks"] += 1

    def final_C18(self):
        for n, f in self.files.items():
            if not f.complete:
                self.bad("incomplete-file", f"{n} is incomplete at the end")

    # ---- C19
    def check_C19(self, job):
        self.stats["oracle_checks"] += 1
        if job.spec["entry"] not in ENSEMBLES + ("main",):
            return
        main = job.main
        if main.killed:
            return
        ws = [a for a in job.actors if a.kind == "worker"]
        failed = [a.name + (f" ({a.killed})" if a.killed else f" (exit code {a.code})") for a in ws if a.killed or a.code != 0]
        label = describe_job(job.spec)
        stopped = [a.name for a in ws if a.killed == "by the job"]
        if stopped:
            self.bad("survivor-stopped", f"{label} itself stopped its workers {stopped}")
        if job.ended_live and not job.fork_failed:
            self.bad("not-waited", f"{label} ended while its workers {job.ended_live} were still running")
        if failed or job.fork_failed:
            self.probe("job_with_failed_worker")
            if main.code == 0:
                self.bad("failure-not-reported", f"{label} returned normally although {failed or 'a worker could not be started'}"
                                                 f" failed")
        elif main.code != 0:
            if not main.faulted:
                self.bad("spurious-failure", f"{label}: no worker failed, but the run ended with {main.detail}")
        # the workers that did not fail: complete and correct results
        done = [a for a in ws if not a.killed and a.code == 0]
        for a, inst, rs, kinds in self.expected_files(job):
            for k in kinds:
                if not any(kind_of(f.name) == k and f.complete and holds(k, f.parsed, rs) for f in self.files.values()):
                    self.bad("survivor-results", f"{label}: {a.name} ended normally after {len(rs)} realizations, but no complete "
                                                 f"{k} file holds its results (failed workers: {failed})")
        if not failed and not job.fork_failed and main.code == 0:
            n = sum(len(rs) for _, _, rs in self.ok_workers(job))
            if n != job.spec["En"]:
                self.bad("incomplete-run", f"{label} returned normally after {n} realizations")
            if self.pi and any(j.faulted for j in self.jobs[:-1]):
                self.probe("recovery_run_complete")

    # ---- C20
    def check_C20(self, job):
        self.stats["oracle_checks"] += 1

    def final_C20(self):
        seen, head, draws = {}, {}, {}
        n = 0
        for job in self.jobs:
            for a in job.actors:
                for inst, rs in a.groups.items():
                    for q, m in enumerate(rs):
                        if job.spec.get("seed") is not None or not m["order"]:
                            continue
                        n += 1
                        who = f"realization {q} of {a.name} ({describe_job(job.spec)})"
                        k = (m["cls"], m["L"], tuple(m["order"]))
                        if k in seen:
                            self.bad("same-choices", f"{who} occupied the sites in the same order as {seen[k]}")
                        seen[k] = who
                        h = (m["L"], tuple(m["order"][:11]))
                        if m["L"] >= 5 and h in head:
                            self.bad("same-choices", f"{who} starts with the same 11 sites as {head[h]}")
                        head[h] = who
                        for w in m["draws"]:
                            if draws.setdefault(w, who) != who:
                                self.bad("same-choices", f"{who} made the same random choices (64 bits in a row) as {draws[w]}")
        self.probe("realizations_compared", n)

    # ---- C26
    def check_C26(self, job):
        """nothing but the results is left of a run that ended: no worker, no temporary file, no open result file"""
        self.stats["oracle_checks"] += 1
        label = describe_job(job.spec)
        if not job.main.killed and not job.main.faulted and not job.fork_failed:
            if job.ended_live:
                self.bad("left-running", f"{label} ended, its {job.ended_live} were still running")
            if job.main.open_files:
                self.bad("left-open", f"{label} ended with open files {job.main.open_files}")
        stopped = [a.name for a in job.actors if a.killed == "by the job"]
        if stopped:
            self.bad("stopped", f"{label} ended and took its workers {stopped} with it before they had finished")
        # crashes leave temporary files behind, and so may a disk that refuses to close a file
        if any(a.killed for a in self.actors) or any(k.endswith("@close") or k == "alloc_failure" for k in self.stats["faults"]):
            return
        found = []
        for d, dirs, names in os.walk(self.root):
            d = os.path.relpath(d, self.root)
            found += [os.path.normpath(os.path.join(d, x)) for x in names
                      if not (d == "data" and NAME.match(x)) and not d.split(os.sep)[0] == "logs"]
        if found:
            self.bad("left-behind", f"{label} ended and left {sorted(found)[:6]} behind")

    # ---- C21
    def check_C21(self, job):
        for a in job.actors:
            for f in a.files:
                if f.complete and f.writer is a and not f.checked:
                    f.checked = True
                    self.stats["oracle_checks"] += 1
                    self.header(job, a, f)

    def header(self, job, a, f):
        n, p = f.name, f.parsed
        k = kind_of(n)
        head = p["head"]
        rs = self.group_of(a, k, p)
        if rs is None:
            return
        m = rs[0]
        if head.get("length") != m["L"] or head.get("L") != m["L"]:
            self.bad("header-length", f"{n}: header says length {head.get('length')}/{head.get('L')}, the run used {m['L']}")
        if k != "single" and (head.get("ensemble_size") != len(rs) or head.get("En") != len(rs)):
            self.bad("header-size", f"{n}: header says {head.get('ensemble_size')}/{head.get('En')} realizations, "
                                    f"the worker performed {len(rs)}")
        if not n.startswith(m["sig"]) or kind_of(n[len(m["sig"]) - 1:]) is None:
            self.bad("name-variant", f"{n} was written for variant {m['sig']}")
        cls = job_class(job.spec)
        if cls and (m["cls"] != CLASS[cls] or not n.startswith(SIGNATURE[cls])):
            self.bad("name-variant", f"{describe_job(job.spec)} simulated {m['cls']} and wrote {n}")
        rest = n[len(m["sig"]):]
        g = re.search(r"_L(\d+)_", rest)
        if not g or int(g.group(1)) != m["L"]:
            self.bad("name-length", f"{n} does not carry length {m['L']}")
        g = re.search(r"_(\d{8})_(\d{6})", rest)
        if not g:
            self.bad("name-time", f"{n} carries no time stamp")
        stamp = g.group(1) + g.group(2)
        htime = str(head.get("date")).replace(".", "") + str(head.get("time")).replace(":", "")
        if stamp != htime:
            self.bad("header-time", f"{n}: header says {head.get('date')} {head.get('time')}")
        reads = {seams.SimDateTime.utcfromtimestamp_(t).strftime("%Y%m%d%H%M%S") for t in a.times}
        if stamp not in reads:
            self.bad("name-time", f"{n}: its time is not one the clock showed to {a.name} ({sorted(reads)[-3:]})")
        # worker number
        th = re.search(r"_th(\d+)", rest)
        want = job.spec.get("thread")
        e = job.spec["entry"]
        if e in ("ens_t", "ens_v2", "sp_v2") and want is not None:
            if not th or int(th.group(1)) != want:
                self.bad("name-worker", f"{n}: written by worker {want}")
        if e in ENSEMBLES:
            if not th or not 0 <= int(th.group(1)) < want:
                self.bad("name-worker", f"{n}: written by {a.name} of {want} workers")
            same = [x for b in job.actors for x in b.files if b is not a and kind_of(x.name) == k
                    and re.search(r"_th%s(?!\d)" % th.group(1), x.name)]
            if same:
                self.bad("name-worker", f"{n} (by {a.name}) and {same[0].name} (by {same[0].writer.name}) carry the same worker number")
            mine = {re.search(r"_th(\d+)", x.name).group(1) for x in a.files if re.search(r"_th(\d+)", x.name)}
            if len(mine) > 1:
                self.bad("name-worker", f"{a.name} wrote files of workers {sorted(mine)}")
        cols = head.get("columns")
        if k == "single":
            N = m["L"] ** 2
            for key, want in (("entropy_list", m["H"]), ("order_largest_list", m["Pl"]), ("order_wrapping_list", m["Pw"])):
                if not near(head.get(key), want):
                    self.bad("header-series", f"{n}: {key} is not that series of the realization")
            if abs(head.get("pc", -1) - m["pc"]) > 1e-12 or head.get("site_count_wrapping_cluster_pc") != m["sc"] \
                    or head.get("bond_count_wrapping_cluster_pc") != m["bc"]:
                self.bad("header-critical", f"{n}: critical values differ from the realization's")
            return
        width = len(p["rows"][0]) if p["rows"] else 0
        if not isinstance(cols, list) or len(cols) != width:
            self.bad("header-columns", f"{n}: columns {cols}, but the data has {width} columns")
        desc = head.get("desc") or []
        meaning = {}
        for d in desc:
            if "=" in d:
                x, y = d.split("=", 1)
                meaning[x.strip()] = y.lower()
        for j, c in enumerate(cols):
            t = meaning.get(c, c.lower())
            key = None
            if k == "entropy":
                key = "p" if "occupation" in t else "H" if "entropy" in t else "Pw" if "wrapping" in t else \
                    "Pl" if "largest" in t else None
                if key is None:
                    self.bad("header-columns", f"{n}: the description does not say what column {c} is ({desc})")
                want = mean([r[key] for r in rs])
            elif k == "critical":
                key = "sc" if "site" in t else "bc" if "bond" in t else "pc" if "critical" in t else None
                want = key and [r[key] for r in rs]
            else:
                key = "pstar" if ("p*" in c or "shortest" in t or "straight" in t) else "pc" if "critical" in t else None
                want = key and [r[key] for r in rs]
            if key is None:
                continue
            got = [row[j] for row in p["rows"]]
            if not near(got, want):
                self.bad("header-columns", f"{n}: column {j} ({c!r}, described as {t!r}) does not hold {key}: "
                                           f"{got[:4]}... instead of {want[:4]}...")

    def group_of(self, a, k, parsed):
        """the ensemble of actor a that this file is about: its only one, or the one whose values it holds"""
        gs = list(a.groups.values())
        if not gs:
            return None
        if len(gs) == 1:
            return gs[0]
        for rs in gs:
            if holds(k, parsed, rs):
                return rs
        return None

    # ---- C22
    def check_C22(self, job):
        if job.spec["entry"] in ("single",):
            return
        for a in job.actors:
            per = {}
            for f in a.files:
                if (f.complete or f.parsed and a.code == 0 and not job.faulted) and f.writer is a:
                    per.setdefault(kind_of(f.name), []).append(f)
            gs = list(a.groups.values())
            for k, fs in per.items():
                if k not in ("entropy", "critical", "pstar"):
                    continue
                left = list(gs)
                for f in fs:
                    if f.checked:
                        continue
                    f.checked = True
                    self.stats["oracle_checks"] += 1
                    hit = next((rs for rs in left if holds(k, f.parsed, rs)), None)
                    if hit is None:
                        why = explain(k, f.parsed, left[0]) if left else "no realization of this worker is left for it"
                        self.bad("not-the-mean" if k == "entropy" else "not-the-values",
                                 f"{f.name} by {a.name} ({describe_job(job.spec)}): {why}")
                    left.remove(hit)
                    self.probe("averages_checked" if k == "entropy" else "value_lists_checked")

    # ---- C14 (file part)
    def check_C14(self, job):
        for a in job.actors:
            for f in a.files:
                if kind_of(f.name) != "single" or not f.complete or f.checked or f.writer is not a:
                    continue
                f.checked = True
                self.stats["oracle_checks"] += 1
                m = next(iter(a.groups.values()))[0]
                L, h = m["L"], f.parsed["head"]
                if h.get("site_id_sequence") != m["order"]:
                    self.bad("id-sequence", f"{f.name}: site_id_sequence {h.get('site_id_sequence')} is not the occupation "
                                            f"order {m['order']}")
                if [list(x) for x in h.get("site_index_sequence", [])] != [[s // L, s % L] for s in m["order"]]:
                    self.bad("index-sequence", f"{f.name}: site_index_sequence is not the occupation order")
                rows, mod = series(L, m["order"])
                exp = {"entropy_list": [r[1] for r in rows], "order_largest_list": [r[2] for r in rows],
                       "order_wrapping_list": [r[3] for r in rows]}
                for key, want in exp.items():
                    if not near(h.get(key), want, 1e-8):
                        self.bad("record-series", f"{f.name}: {key} is not reproduced by replaying the recorded sequence")
                crit = (mod.wrap_at / L ** 2, mod.wrap_sites, mod.wrap_bonds)
                got = (h.get("pc"), h.get("site_count_wrapping_cluster_pc"), h.get("bond_count_wrapping_cluster_pc"))
                if not near(list(got), list(crit)):
                    self.bad("record-critical", f"{f.name}: critical values {got}, the recorded sequence gives {crit}")

    # ---- C11 (file part): same seed, same operations, other clock, other schedule, other company
    def check_C11(self, job):
        self.stats["oracle_checks"] += 1

    def final_C11(self):
        ref = {}
        for job in self.jobs:
            s = job.spec
            if s.get("seed") is None or job.faulted:
                continue
            key = json.dumps({k: s[k] for k in ("entry", "length", "En", "seed", "thread", "cls") if k in s}, sort_keys=True)
            data = {}
            for a in job.actors:
                for f in a.files:
                    if f.complete:
                        data[kind_of(f.name)] = f.parsed["rows"]
            if not data and job.main.code == 0:
                continue
            if key in ref:
                for k in data:
                    if data[k] != ref[key][0].get(k):
                        self.bad("seed-not-reproducible", f"{describe_job(s)} with seed {s['seed']}: the {k} data of {job.name} "
                                                          f"differ from those of {ref[key][1]}")
                self.probe("seeded_files_compared")
            else:
                ref[key] = (data, job.name)


    # ---- C30
    def check_C30(self, job):
        self.stats["oracle_checks"] += 1
        label = describe_job(job.spec)
        for a in job.actors:
            self.said(job, a, label)
        if job.spec["entry"] != "main" or job.main.killed:
            return
        ws = [a for a in job.actors if a.kind == "worker"]
        failed = [a.name for a in ws if a.killed or a.code != 0]
        good = [t for k, t in job.main.events if k in ("log", "print") and "No errors" in t]
        if good and (failed or job.fork_failed):
            self.bad("said-no-errors", f"{label} reported 'No errors' although {failed or 'a worker that never started'} failed")
        if job.main.code == 0 and len(good) != 1:
            self.bad("said-no-errors", f"{label} completed and reported 'No errors' {len(good)} times")
        if good:
            self.probe("no_errors_reported")
        elif failed:
            self.probe("failed_run_kept_quiet")
        ev = job.main.events
        for q, (k, t) in enumerate(ev):
            if k not in ("log", "print"):
                continue
            g = re.match(r"\s*Total time elapsed\s+(?:(-?\d+)h\s+(-?\d+)m\s+)?(-?[\d.]+)\s*s", t)
            if g:
                h, mi, s = int(g.group(1) or 0), int(g.group(2) or 0), float(g.group(3))
                if g.group(1) and not (0 <= mi < 60 and 0 <= s < 60.0001):
                    self.bad("said-elapsed", f"{label} said {t!r}")
                total = 3600 * h + 60 * mi + s
                spans = [y[1] - x[1] for kind in ("wall", "mono") for x in [next((e for e in ev if e[0] == kind), None)] if x
                         for y in ev[:q] if y[0] == kind]
                if not any(abs(total - d) < 2e-4 for d in spans):
                    self.bad("said-elapsed", f"{label} said {t!r}, its clock readings are apart {spans}")
                self.probe("total_time_checked")
            g = re.match(r"\s*Current Time\s+(\S+ \S+)", t)
            if g and g.group(1) not in {seams.SimDateTime.utcfromtimestamp_(x).strftime("%Y.%m.%d %H:%M:%S") for x in job.main.times}:
                self.bad("said-time", f"{label} said {t!r}, its clock never showed that")

    def said(self, job, a, label):
        """the lines one actor printed or logged, against its history"""
        who = f"{a.name} of {label}"
        e = job.spec["entry"]
        done, progress, pstars, last_no, threads, stamps, said_of = [], 0, 0, None, set(), [], {}
        for q, (k, t) in enumerate(a.events):
            if k == "done":
                done.append((q, t))
                continue
            if k not in ("log", "print"):
                continue
            if not done:        # a line about a realization that has not been performed
                if re.match(r"\s*[Ii]teration\s+\d+", t):
                    self.bad("said-progress", f"{who}: {t!r} before the first realization")
                continue
            inst = [m for _, m in done if m["inst"] == done[-1][1]["inst"]]
            g = re.match(r"\s*Iteration\s+(\d+)\s*\|\s*Time elapsed\s+(-?[\d.]+)\s*sec(?:\s*\|\s*thread\s+(\d+))?", t)
            if g:
                progress += 1
                if progress != len(done):
                    self.bad("said-progress", f"{who}: {t!r} is progress line {progress}, after {len(done)} realizations")
                if len(inst) > 1 and int(g.group(1)) <= last_no:
                    self.bad("said-progress", f"{who}: {t!r} follows the line numbered {last_no}")
                last_no = int(g.group(1))
                before = done[-2][0] if len(done) > 1 else -1
                spans = [y[1] - x[1] for kind in ("wall", "mono") for x in a.events[before + 1:done[-1][0]] if x[0] == kind
                         for y in a.events[done[-1][0]:q] if y[0] == kind]
                if not any(abs(float(g.group(2)) - d) < 2e-5 for d in spans):
                    self.bad("said-elapsed", f"{who}: {t!r}, the clock readings before and after the realization are {spans} apart")
                if g.group(3):
                    threads.add(int(g.group(3)))
                self.probe("progress_lines_checked")
            g = re.match(r"\s*iteration\s+(\d+)\s+p\*=\s*(\S+)", t)
            if g:
                pstars += 1
                if said_of.setdefault(done[-1][1]["inst"], 0) + 1 != len(inst) or int(g.group(1)) != len(inst):
                    self.bad("said-pstar", f"{who}: {t!r} was printed after {len(done)} realizations")
                said_of[done[-1][1]["inst"]] += 1
                if abs(float(g.group(2)) - inst[-1]["pstar"]) > 1e-9:
                    self.bad("said-pstar", f"{who}: {t!r}, p* of that realization is {inst[-1]['pstar']}")
                self.probe("pstar_lines_checked")
            g = re.match(r"\s*\[(.*)\]\s*$", t)
            if g and e == "ens":
                got = [float(x) for x in g.group(1).split()]
                m = done[-1][1]
                want = [m[c][-1] for c in ("p", "H", "Pl", "Pw")]
                if len(got) != 4 or not all(abs(x - y) < 1e-6 for x, y in zip(sorted(got), sorted(want))):
                    self.bad("said-row", f"{who}: {t!r}, the realization ended with {want}")
            g = re.match(r"\s*current_time\s+(\S+)", t)
            if g:
                stamps.append(g.group(1))
        whole = a.ended and a.code == 0 and not a.killed and not a.faulted
        if e == "sp_demo":
            text = [t for k, t in a.events if k == "print"]
            if whole and done:
                last = next((t for t in reversed(text) if t.strip()), "")
                p = done[-1][1]["pstar"]
                if len(done) != 1 or not re.match(r"\s*[\d.]+\s*$", last) or abs(float(last) - p) > 1e-9:
                    self.bad("said-pstar", f"{who}: the last line is {last!r}, p* of the realization is {p}")
                first = self.__dict__.setdefault("demo", text)
                if first != text:
                    self.bad("said-demo", f"{who} (a fixed seed) printed something else than the first run of it did")
                self.probe("demo_output_compared")
            return
        if not whole:
            return
        if e in ("single", "threads", "threads_v2") or not done:
            return
        if e != "sp_v1" and progress != len(done):
            self.bad("said-progress", f"{who}: {progress} progress lines for {len(done)} realizations")
        if e in ("sp", "sp_v1", "sp_v2") and pstars != len(done):
            self.bad("said-pstar", f"{who}: {pstars} lines with p* for {len(done)} realizations")
        names = [f.name for f in a.files if f.writer is a]
        if names:
            th = {int(g.group(1)) for g in (re.search(r"_th(\d+)", n) for n in names) if g}
            if threads != th:
                self.bad("said-worker", f"{who}: its lines speak of worker {sorted(threads)}, its files are {names}")
            if not stamps or any(not any(x in n for n in names) for x in stamps) or \
                    any(not any(x in n for x in stamps) for n in names):
                self.bad("said-time", f"{who}: it said current_time {stamps}, its files are {names}")
            self.probe("file_stamps_checked")

    def final_C30(self):
        """what was logged by main.py is in its log"""
        jobs = [j for j in self.jobs if j.spec["entry"] == "main"]
        if not jobs:
            return
        text = ""
        d = os.path.join(self.root, "logs")
        for n in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            with REAL.open(os.path.join(d, n), errors="replace") as f:
                text += f.read()
        want = {}
        for j in jobs:
            for a in j.actors:
                if a.ended and not a.killed:
                    for k, t in a.events:
                        if k == "log":
                            want[t] = want.get(t, 0) + 1
        for t, n in want.items():
            if text.count(t) < n:
                self.bad("log-lost", f"{t!r} was logged {n} times, the log holds it {text.count(t)} times")
        self.probe("log_lines_found", sum(want.values()))


FILES = {"v3": ("entropy", "critical"), "v4": ("entropy", "critical"), "sp": ("pstar",), "ens": ("entropy", "critical"),
         "ens_t": ("entropy",), "ens_v2": ("entropy", "critical"), "sp_v2": ("pstar",), "single": ("single",),
         "main": ("entropy", "critical"), "sims": ("entropy", "critical"), "sp_v1": (), "sp_demo": ()}


def job_class(s):
    e = s["entry"]
    if e == "v3" or e == "sims":
        return "L0"
    if e == "v4":
        return {1: "L1", 2: "L2"}.get(s["interaction"], "L0")
    if e == "main":
        return "L1"
    if e in ("sp", "sp_v2"):
        return "SP"
    return s.get("cls")


def describe_job(s):
    return "{}({})".format(s["entry"], ", ".join(f"{k}={v}" for k, v in s.items() if k not in ("entry", "delay", "preempt")))


def mean(lists):
    n = len(lists)
    if any(x is None or len(x) != len(lists[0]) for x in lists):
        return None
    return [math.fsum(c) / n for c in zip(*lists)]


def near(a, b, tol=2e-9):
    if not isinstance(a, list) or not isinstance(b, list) or len(a) != len(b):
        return False
    return all(isinstance(x, (int, float)) and isinstance(y, (int, float)) and abs(x - y) <= tol * max(1.0, abs(y))
               for x, y in zip(a, b))


def holds(k, parsed, rs):
    if not parsed or not rs:
        return False
    rows = parsed["rows"]
    if k == "entropy":
        want = entropy_rows(rs)
        if want is None or len(rows) != len(want):
            return False
        # the two order parameters may come in either column order: C21 decides about the header
        return all(near(sorted(r), sorted(w)) for r, w in zip(rows, want)) and near([r[0] for r in rows], [w[0] for w in want]) \
            and near([r[1] for r in rows], [w[1] for w in want]) and columns_consistent(rows, want)
    if k == "critical":
        return len(rows) == len(rs) and all(near(r, [m["pc"], m["sc"], m["bc"]]) for r, m in zip(rows, rs))
    if k == "pstar":
        return len(rows) == len(rs) and all(near(r, [m["pc"], m["pstar"]]) for r, m in zip(rows, rs))
    if k == "single":
        h = parsed["head"]
        return len(rs) == 1 and near(h.get("entropy_list"), rs[0]["H"]) and near(h.get("order_largest_list"), rs[0]["Pl"]) \
            and near(h.get("order_wrapping_list"), rs[0]["Pw"])
    return False


def columns_consistent(rows, want):
    a = near([r[2] for r in rows], [w[2] for w in want]) and near([r[3] for r in rows], [w[3] for w in want])
    b = near([r[3] for r in rows], [w[2] for w in want]) and near([r[2] for r in rows], [w[3] for w in want])
    return a or b


def entropy_rows(rs):
    cols = [mean([m[c] for m in rs]) for c in ("p", "H", "Pl", "Pw")]
    if any(c is None for c in cols) or len({len(c) for c in cols}) != 1:
        return None
    return [list(r) for r in zip(*cols)]


def explain(k, parsed, rs):
    rows = parsed["rows"]
    if k == "entropy":
        want = entropy_rows(rs)
        if want is None:
            return "the realizations' series have different lengths"
    elif k == "critical":
        want = [[m["pc"], m["sc"], m["bc"]] for m in rs]
    else:
        want = [[m["pc"], m["pstar"]] for m in rs]
    if len(want) != len(rows):
        return f"{len(rows)} rows, expected {len(want)}"
    for i, (r, w) in enumerate(zip(rows, want)):
        if not near(r, w):
            return f"row {i} is {r}, expected {w}"
    return "?"


def parse(name, text):
    """is the content whole? (complete, reason, {head, rows})"""
    k = kind_of(name)
    try:
        s = text.decode("ascii")
    except UnicodeDecodeError:
        return False, "not text", None
    if k == "single":
        try:
            h = json.loads(s)
        except ValueError:
            return False, f"{len(s)} characters that are not a JSON record", None
        if not isinstance(h, dict) or "length" not in h:
            return False, "not a record", None
        N = h["length"] ** 2
        for key in ("site_id_sequence", "site_index_sequence", "entropy_list", "order_largest_list", "order_wrapping_list"):
            if key not in h:
                return False, f"{key} missing", None
            if len(h[key]) != N and key != "site_id_sequence":
                return False, f"{key} has {len(h[key])} of {N} entries", None
        return True, "", {"head": h, "rows": []}
    lines = s.split("\n")
    if not lines[0].startswith("#"):
        return False, "no header" if s else "empty", None
    try:
        h = json.loads(lines[0][1:])
    except ValueError:
        return False, "header cut short", None
    if not isinstance(h, dict):
        return False, "header is no record", None
    if lines[-1] != "":
        return False, "last line cut short", None
    rows = []
    try:
        for x in lines[1:-1]:
            rows.append([float(v) for v in x.split()])
    except ValueError:
        return False, "unreadable row", None
    if len({len(r) for r in rows}) > 1:
        return False, "rows of different width", None
    want = h.get("length", 0) ** 2 if k == "entropy" else h.get("ensemble_size") if k in ("critical", "pstar") else None
    if want is not None and len(rows) != want:
        return False, f"{len(rows)} of {want} rows", {"head": h, "rows": rows}
    return True, "", {"head": h, "rows": rows}
