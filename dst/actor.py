"""The side of the ensemble world that lives in the simulated processes: every seam call becomes a message to the scheduler."""
import errno
import itertools
import json
import os
import random
import socket
import struct
import sys
import threading
import time
import types

from . import seams
from .seams import REAL, HarnessError, SimMemoryError, LINES

_fork, _exit, _waitpid, _kill, _getpid = os.fork, os._exit, os.waitpid, os.kill, os.getpid
_thread_start, _thread_join = threading.Thread.start, threading.Thread.join


def send(sock, obj):
    data = json.dumps(obj).encode()
    sock.sendall(struct.pack("<I", len(data)) + data)


def recv(sock):
    """one message, or None at the end of the stream"""
    head = _recvn(sock, 4)
    if head is None:
        return None
    body = _recvn(sock, struct.unpack("<I", head)[0])
    return None if body is None else json.loads(body)


def _recvn(sock, n):
    out = bytearray()
    while len(out) < n:
        try:
            d = sock.recv(n - len(out))
        except (ConnectionResetError, BrokenPipeError):
            return None
        if not d:
            return None
        out += d
    return bytes(out)


class ActorCtx(seams.Context):
    in_world = True

    def __init__(self, address, root, vpid):
        self.address, self.root, self.vpid = address, root, vpid
        self.tl = threading.local()
        self.children = {}          # virtual pid -> real pid
        self.track_order = False
        self.mono = 0.0

    # -------------------------------------------------------------- channel
    def become(self, name):
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.connect(self.address)
        self.tl.chan, self.tl.name = s, name
        send(s, {"op": "hello", "name": name, "pid": _getpid()})
        self.wait_reply()

    def wait_reply(self):
        r = recv(self.tl.chan)
        if r is None:
            _exit(120)              # the scheduler is gone
        do = r.get("do")
        if do == "die":
            seams.die()
        if do == "mem":
            raise SimMemoryError("injected allocation failure")
        return r

    def rpc(self, msg):
        try:
            send(self.tl.chan, msg)
        except (BrokenPipeError, ConnectionResetError):
            _exit(120)
        return self.wait_reply()

    # -------------------------------------------------------------- seams
    def now(self, what):
        return self.rpc({"op": "time", "what": what})["t"]

    def sleep(self, s):
        self.rpc({"op": "sleep", "s": s})

    def sandbox(self):
        return self.root

    def fs(self, op, path, **kw):
        m = {"op": "fs", "name": op, "path": os.path.relpath(path, self.root)}
        for k in ("size", "mode", "flags"):
            if k in kw:
                m[k] = kw[k]
        for k in ("src", "dst"):
            if k in kw:
                m[k] = os.path.relpath(os.path.join(REAL.getcwd(), kw[k]), self.root)
        return self.rpc(m).get("act")


def current():
    c = seams.CTX
    return c if isinstance(c, ActorCtx) and hasattr(c.tl, "chan") else None


# ------------------------------------------------------------------------------------- processes and threads

def sim_fork():
    c = current()
    if c is None:
        return _fork()
    r = c.rpc({"op": "fork"})
    if r.get("fail"):
        raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
    pid = _fork()
    if pid == 0:
        c.tl.chan.close()
        c.vpid = r["vpid"]
        c.children = {}
        LINES.n = 0
        if seams.DRAWS.win is not None:
            seams.DRAWS.windows()
        seams.reseed_process(r["key"])      # the standard library re-seeds the shared generator after fork
        c.become(r["name"])
        return 0
    c.children[r["vpid"]] = pid
    return r["vpid"]


def sim_exit(code):
    c = current()
    if c is not None:
        try:
            send(c.tl.chan, {"op": "exit", "code": code})
        except OSError:
            pass
    _exit(code)


def sim_waitpid(pid, flags):
    c = current()
    if c is None:
        return _waitpid(pid, flags)
    if pid not in c.children:
        raise ChildProcessError(errno.ECHILD, os.strerror(errno.ECHILD))
    r = c.rpc({"op": "wait", "vpid": pid, "nohang": bool(flags & os.WNOHANG)})
    if not r["ended"]:
        return 0, 0
    _, st = _waitpid(c.children.pop(pid), 0)
    return pid, st


def sim_kill(pid, sig):
    c = current()
    if c is None or pid == _getpid():
        return _kill(pid, sig)
    if pid == c.vpid:
        return _kill(_getpid(), sig)
    if pid not in c.children:
        raise ProcessLookupError(errno.ESRCH, os.strerror(errno.ESRCH))
    c.rpc({"op": "kill", "vpid": pid, "sig": int(sig)})


def sim_getpid():
    c = seams.CTX
    return c.vpid if isinstance(c, ActorCtx) else _getpid()


def sim_conn_wait(object_list, timeout=None):
    c = current()
    if c is None:
        return _conn_wait(object_list, timeout)
    waited = 0.0
    while True:
        ready = _conn_wait(object_list, 0)
        if ready or (timeout is not None and waited >= timeout):
            return ready
        if timeout is None:
            c.rpc({"op": "poll"})
        else:
            # the awaited process may be slow: the scheduler may let the rest of the timeout pass at once
            r = c.rpc({"op": "poll", "left": max(0.0, timeout - waited)})
            waited += 0.05
            if r.get("expired"):
                waited = timeout


def sim_thread_start(self):
    c = current()
    if c is None:
        return _thread_start(self)
    r = c.rpc({"op": "thread"})
    name = self._dst_name = r["name"]
    run = self.run

    def body():
        try:
            c.become(name)
        except SimMemoryError:
            pass
        ok = True
        try:
            run()
        except BaseException:
            ok = False
            raise
        finally:
            try:
                send(c.tl.chan, {"op": "exit", "code": 0 if ok else 1})
            except OSError:
                pass
            c.tl.chan.close()
            del c.tl.chan
    self.run = body
    return _thread_start(self)


def sim_thread_join(self, timeout=None):
    c = current()
    if c is None or not hasattr(self, "_dst_name"):
        return _thread_join(self, timeout)
    c.rpc({"op": "join", "name": self._dst_name, "timeout": timeout})
    if timeout is None:
        _thread_join(self, 20.0)
    else:
        _thread_join(self, 0.0)


_conn_wait = None


def install():
    global _conn_wait
    import multiprocessing.connection as mc
    import multiprocessing.popen_fork  # noqa
    import shutil
    if _conn_wait is not None:
        return
    _conn_wait = mc.wait
    mc.wait = sim_conn_wait
    os.fork, os._exit, os.waitpid, os.kill, os.getpid = sim_fork, sim_exit, sim_waitpid, sim_kill, sim_getpid
    threading.Thread.start, threading.Thread.join = sim_thread_start, sim_thread_join
    shutil._USE_CP_SENDFILE = False
    # multiprocessing keeps its children in a set and polls them in its order: let it not depend on addresses
    import multiprocessing.process as mp
    mp.BaseProcess.__hash__ = lambda self: hash(self._identity)


# -------------------------------------------------------------------------------------------------- recorder

_depth = threading.local()
_inst = itertools.count()


def snapshot(o, order):
    def lst(name):
        f = getattr(o, name, None)
        return [float(x) for x in f()] if f else None

    def val(name):
        f = getattr(o, name, None)
        return None if f is None else float(f())
    if not hasattr(o, "_dst_inst"):
        o._dst_inst = next(_inst)
    return {"op": "realization", "cls": type(o).__name__, "L": o.lattice_ref.length, "sig": o.get_signature(),
            "inst": o._dst_inst, "pc": val("get_pc"), "sc": val("get_site_count_wrapping_cluster_pc"),
            "bc": val("get_bond_count_wrapping_cluster_pc"), "pstar": val("get_shortest_path_p"),
            "p": lst("get_occupation_prob_array"), "H": lst("get_entropy_array"), "Pl": lst("get_order_param_largest_array"),
            "Pw": lst("get_order_param_wrapping_array"), "order": order}


def record(ctx, classes):
    """wrap run_once of every simulation class; the outermost call reports the finished realization"""
    for cls in dict.fromkeys(b for c in classes for b in c.__mro__):
        if "run_once" not in cls.__dict__:
            continue
        orig = cls.__dict__["run_once"]

        def run_once(self, *a, _orig=orig, **kw):
            if getattr(_depth, "n", 0):
                return _orig(self, *a, **kw)
            _depth.n = 1
            order = [] if ctx.track_order else None
            get = self.lattice_ref.get_site_by_id
            N = self.lattice_ref.length ** 2
            if ctx.track_order:
                before = {i for i in range(N) if get(i).is_occupied()}
                seen = set(before)
                place = self.place_one_site

                def spy():
                    r = place()
                    s = getattr(self, "selected_id", None)
                    for i in range(N) if type(s) is not int or N <= 100 else (s,):
                        if i not in seen and get(i).is_occupied():
                            seen.add(i)
                            order.append(i)
                    return r
                self.place_one_site = spy
            try:
                r = _orig(self, *a, **kw)
            finally:
                _depth.n = 0
                self.__dict__.pop("place_one_site", None)
            if ctx.track_order:
                now = {i for i in range(N) if get(i).is_occupied()}
                if now != seen:         # sites were placed some other way: only the reported order is known
                    order[:] = [i for i in self.get_site_id_sequence() if i in now and i not in before]
            m = snapshot(self, order)
            if seams.DRAWS.win is not None:
                m["draws"] = seams.DRAWS.win
                seams.DRAWS.win = []
            ctx.rpc(m)
            return r
        cls.run_once = run_once


# ------------------------------------------------------------------------------------ what the programs say

class Console:
    """standard output of a simulated process: every line goes to the scheduler"""
    encoding = "utf-8"
    errors = "strict"

    def __init__(self):
        self.part = threading.local()

    def write(self, s):
        c = current()
        if c is not None:
            *lines, self.part.text = (getattr(self.part, "text", "") + s).split("\n")
            for x in lines:
                r = c.rpc({"op": "line_out", "name": "print", "text": x})
                if "errno" in r:        # the reader of the pipe is gone, the disk behind it is full
                    e = getattr(errno, r["errno"])
                    raise OSError(e, os.strerror(e))
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def writable(self):
        return True


def listen():
    """printed lines and log records of this process and its children go to the scheduler"""
    import logging
    sys.stdout = Console()
    logging.getLogger().setLevel(logging.INFO)
    call = logging.Logger.callHandlers

    def callHandlers(self, record):
        c = current()
        if c is not None:
            c.rpc({"op": "line_out", "name": "log", "text": record.getMessage()})
        call(self, record)
    logging.Logger.callHandlers = callHandlers


# ---------------------------------------------------------------------------------------------- job programs

def fresh_import():
    for m in [m for m in sys.modules if m.split(".")[0] in ("source_py", "run_py", "main")]:
        del sys.modules[m]
    if seams.REPO not in sys.path:
        sys.path.insert(0, seams.REPO)
    from run_py import ensemble, rsbd_percolatioin_run as rsbd, shortest_path_run as sp
    from source_py.simulation import percolation_sq_lattice as base, percolation_sq_lattice_L0 as l0
    from source_py.simulation import percolation_sq_lattice_L1L2 as l12, percolation_sq_lattice_shortest_path as spc
    cl = {"Base": base.SitePercolation, "L0": l0.SitePercolationL0, "L1": l12.SitePercolationL1,
          "L2": l12.SitePercolationL2, "SP": spc.ShortestPathAfter_pc}
    return types.SimpleNamespace(ensemble=ensemble, rsbd=rsbd, sp=sp, cl=cl)


def small(ctx, fn, length, En, sink):
    """a stand-in for a hard-coded heavy workload: same signature, the request is recorded and then scaled down"""
    import inspect
    sig = inspect.signature(fn)

    def scaled(*a, **kw):
        b = sig.bind(*a, **kw)          # a call that does not fit the signature fails as the real one would
        sink(dict(b.arguments))
        for k in list(b.arguments):
            if k == "length":
                b.arguments[k] = length
            elif k in ("ensembleSize", "ensemble_count"):
                b.arguments[k] = En
        return fn(*b.args, **b.kwargs)
    scaled.__signature__ = sig
    for m in [m for n, m in sys.modules.items() if n.split(".")[0] == "run_py" and m is not None]:
        for n in [n for n, v in vars(m).items() if v is fn]:
            setattr(m, n, scaled)
    return scaled


def program(ctx, R, job):
    """run one user program against the repository's entry points"""
    e, L, En, th = job["entry"], job.get("length"), job.get("En"), job.get("thread")
    kw = {} if job.get("seed") is None else {"seed": job["seed"]}
    if e == "v3":
        return R.rsbd.run_simulation_threads_v3(L, En, th)
    if e == "v4":
        return R.rsbd.run_simulation_threads_v4(L, En, th, interaction=job["interaction"])
    if e == "sp":
        return R.sp.run_simulation_shortest_path_threads(L, En, th)
    if e == "ens":
        return R.ensemble.run_ensemble_entropy_order(R.cl[job["cls"]], L, En)
    if e == "ens_t":
        return R.ensemble.run_ensemble_entropy_order_threads(R.cl[job["cls"]], L, En, th)
    if e == "ens_v2":
        return R.ensemble.run_ensemble_entropy_order_threads_v2(R.cl[job["cls"]], L, En, th, **kw)
    if e == "sp_v2":
        return R.sp.ensemble_shortest_path_v2_thread(R.cl["SP"], L, En, th, **kw)
    if e == "sp_v1":
        return R.sp.ensemble_shortest_path_v1(L, En)
    if e == "sp_demo":
        return R.sp.run_shortest_path()
    if e == "single":
        return R.rsbd.single_realization(R.cl[job["cls"]], L)
    if e == "sims":
        R.ensemble.run_ensemble_entropy_order_threads_v2 = small(
            ctx, R.ensemble.run_ensemble_entropy_order_threads_v2, L, En, lambda d: None)
        return R.rsbd.run_simulations()
    if e in ("threads", "threads_v2"):
        def sink(d):
            ctx.rpc({"op": "request", "length": d.get("length"), "En": d.get("ensembleSize")})
        R.ensemble.run_ensemble_entropy_order_threads = small(
            ctx, R.ensemble.run_ensemble_entropy_order_threads, L, En, sink)
        return (R.rsbd.run_simulation_threads if e == "threads" else R.rsbd.run_simulation_threads_v2)()
    if e == "user_threads":
        # the pattern of run_simulation_threads: several ensembles in threads of one process
        fn = {"ens_t": R.ensemble.run_ensemble_entropy_order_threads,
              "ens_v2": R.ensemble.run_ensemble_entropy_order_threads_v2}[job["fn"]]
        ts = [threading.Thread(target=fn, args=(R.cl[c], l, n, i)) for i, (c, l, n) in enumerate(job["parts"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return None
    if e == "multi":
        for sub in job["parts"]:
            program(ctx, R, sub)
        return None
    if e == "main":
        import runpy
        R.rsbd.run_simulation_threads_v4 = small(ctx, R.rsbd.run_simulation_threads_v4, L, En, lambda d: None)
        runpy.run_path(os.path.join(seams.REPO, "main.py"), run_name="__main__")
        return None
    raise HarnessError("entry " + e)


def open_files(root):
    """files of the output directory this process holds open"""
    out = []
    for fd in os.listdir("/proc/self/fd"):
        try:
            p = REAL.readlink(f"/proc/self/fd/{fd}")
        except OSError:
            continue
        if p.startswith(os.path.join(root, "data") + os.sep):
            out.append(os.path.relpath(p, root))
    return sorted(out)


def job_main(ctx, name, job, key, track_order, track_draws, track_output):
    """body of a simulated top-level process"""
    import numpy
    code, outcome = 1, {"outcome": "raise", "detail": "?"}
    try:
        seams.set_context(ctx)
        ctx.track_order = track_order
        seams.reseed_process(key)
        numpy.random.seed(seams.ENTROPY.int() % 2 ** 32)       # a new interpreter seeds it from the system
        os.chdir(ctx.root)
        ctx.become(name)
        seams.CTX = seams.Context()         # importing is not part of the simulated history
        R = fresh_import()
        import logging
        logging.getLogger().handlers[:] = []
        logging.getLogger().setLevel(logging.WARNING)
        record(ctx, R.cl.values())
        if track_output:
            listen()
        seams.set_context(ctx)
        if track_draws:
            seams.DRAWS.windows()
        gap = job.get("preempt")
        if gap:
            rng = REAL.Random(key)
            nxt = [1 + int(gap * rng.expovariate(1.0))]

            def on_line(n):
                if n >= nxt[0] and current() is not None:
                    nxt[0] = n + 1 + int(gap * rng.expovariate(1.0))
                    ctx.rpc({"op": "line"})
            LINES.start(on_line)
        try:
            program(ctx, R, job)
            outcome = {"outcome": "return", "detail": ""}
            code = 0
        except SystemExit as e:
            code = 0 if e.code in (None, 0) else 1
            outcome = {"outcome": "return" if code == 0 else "raise", "detail": f"SystemExit({e.code})"}
        except HarnessError as e:
            outcome = {"outcome": "harness", "detail": str(e)}
        except BaseException as e:
            outcome = {"outcome": "raise", "detail": f"{type(e).__name__}: {str(e)[:300]}"}
        LINES.stop()
        send(ctx.tl.chan, {"op": "end", "code": code, "open": open_files(ctx.root), **outcome})
        try:
            # what the interpreter does when the program is over: end the daemonic workers, wait for the others
            import multiprocessing.util
            multiprocessing.util._exit_function()
        except BaseException:
            pass
        send(ctx.tl.chan, {"op": "exit", "code": code})
    except BaseException as e:
        try:
            send(ctx.tl.chan, {"op": "exit", "code": 1, "outcome": "harness", "detail": repr(e)[:500]})
        except BaseException:
            pass
    finally:
        _exit(code)
