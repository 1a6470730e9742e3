"""Engine world: real lattice/cluster/percolation code, histories and draws owned by the simulator.

A scenario is a JSON value; `execute(scenario)` is a pure function of it and of the code under test.
"""
import copy
import hashlib
import io
import json
import math
import pickle
import re
import random
import sys
import threading
import zlib

from . import seams
from .seams import CapReached, HarnessError, LINES, SimInterrupt, SimMemoryError, DRAWS
from .model import Model, Torus, brute, series

EPS = 1e-9
ROUND = 1e-12  # allowed rounding error of a running entropy, per placement


class Violation(Exception):
    def __init__(self, prop, kind, detail):
        super().__init__(f"{prop} {kind}: {detail}")
        self.prop, self.kind, self.detail = prop, kind, detail


class Inconclusive(Exception):
    """The run cannot be judged for this property (another guarantee failed first)."""


BIG = 5000      # sites of a large lattice: some of the costly looks at the whole state are taken less often
GROUPS_ALL = ("labels", "lists", "wrap", "entropy", "order", "rel", "once", "table")
GROUPS = {"C01": ("labels",), "C02": ("lists",), "C03": ("wrap",), "C04": ("entropy",), "C05": ("order",),
          "C06": ("rel",), "C07": ("once",), "C08": ("law",), "C09": GROUPS_ALL, "C10": (), "C11": (),
          "C12": GROUPS_ALL, "C13": ("line",), "C14": ("replay",), "C15": ("table",), "C24": ("geo",), "C25": ("views",),
          "C27": (), "C28": (), "C29": (), "C31": ()}

_classes = None


def classes():
    global _classes
    if _classes is None:
        if seams.REPO not in sys.path:
            sys.path.insert(0, seams.REPO)
        from source_py.simulation import percolation_sq_lattice as base
        from source_py.simulation import percolation_sq_lattice_L0 as l0
        from source_py.simulation import percolation_sq_lattice_L1L2 as l12
        from source_py.simulation import percolation_sq_lattice_shortest_path as sp
        from source_py.simulation.states import SelectionState
        _classes = {"Base": base.SitePercolation, "L0": l0.SitePercolationL0, "L1": l12.SitePercolationL1,
                    "L2": l12.SitePercolationL2, "SP": sp.ShortestPathAfter_pc, "State": SelectionState}
    return _classes


BIASED = ("L1", "L2")


class Inst:
    def __init__(self, key, cls, L, seed):
        self.key, self.cls, self.L, self.seed = key, cls, L, seed
        self.t = Torus(L)
        self.m = Model(L)
        self.seq = None             # custom sequence in force
        self.shuffle = False
        self.seqs = None            # sequences possibly in force after a cut set_custome_...
        self.obj = None
        self.broken = False
        self.done = False
        self.attempts = 0
        self.fail_at = {}           # site -> number of failed attempts before it was occupied
        self.rows = []              # expected table
        self.kept = []              # tables handed out before, with copies
        self.wrapped_seen = False
        self.p_star = None
        self.realizations = 0
        self.tested = True          # wrapping test made after every placement so far
        self.pure = True            # the current realization was recorded completely by run_once
        self.looked = None          # large lattices: number of sites at the last costly look

    def fresh_state(self):
        self.m.reset()
        self.broken = self.done = self.wrapped_seen = False
        self.attempts = 0
        self.fail_at = {}           # site -> number of failed attempts before it was occupied
        self.rows = []
        self.p_star = None
        self.tested = True
        self.pure = True
        self.looked = None


class Engine:
    def __init__(self, scenario):
        self.sc = scenario
        self.prop = scenario["prop"]
        self.groups = set(scenario.get("groups") or GROUPS[self.prop])
        self.inst = {}
        self.shared = {}            # shared custom sequence objects
        self.shared_copy = {}
        self.snap = {}              # C12: what each simulation reported after the last operation
        self.stats = {"steps": 0, "placed": 0, "failed_attempts": 0, "resets": 0, "realizations": 0, "wraps": 0,
                      "observations": 0, "lines": 0, "faults": {}, "probes": {}, "switches": 0, "law_states": 0,
                      "law_paths": 0, "aborted": 0, "oracle_checks": 0}
        self.states = set()
        self.new_obs = {}
        self.armed = self.prop != "C09"
        self.pick = seams.REAL.Random(f"{self.sc['entropy']}/pick")      # which sites, which view: part of the schedule
        self.sparse = False
        self.trace = hashlib.sha256()
        self.lastlog = None

    # ------------------------------------------------------------------ helpers
    def log(self, *a):
        self.trace.update((repr(a) + "\n").encode())

    def probe(self, name, n=1):
        d = self.stats["probes"]
        d[name] = d.get(name, 0) + n

    def fault(self, name):
        d = self.stats["faults"]
        d[name] = d.get(name, 0) + 1

    def bad(self, kind, detail):
        raise Violation(self.prop, kind, detail if len(detail) < 4000 else detail[:4000] + " ...")

    def call(self, what, fn, *a, **kw):
        """call into the code under test; unexpected exceptions are violations of the property being checked"""
        try:
            r = fn(*a, **kw)
        except (SimInterrupt, SimMemoryError, CapReached, Violation, HarnessError, Inconclusive):
            raise
        except Exception as e:
            if not self.armed:
                raise Inconclusive(f"{what} raised {type(e).__name__} before the property applies")
            self.bad("exception", f"{what} raised {type(e).__name__}: {str(e)[:200]}")
        if r is None and getattr(fn, "__name__", "") in ANSWERS:
            if not self.armed:
                raise Inconclusive(f"{what} answered nothing before the property applies")
            self.bad("no-answer", f"{what} returned None")
        return r

    # ------------------------------------------------------------------ main
    def execute(self):
        sc = self.sc
        seams.reseed_process(sc["entropy"])
        g = seams.global_random()
        mode = sc.get("rng", {"mode": "fair"})
        g.set_mode(mode["mode"], mode.get("seed", 0))
        DRAWS.total, DRAWS.cap = 0, sc.get("draw_cap")
        try:
            for i, op in enumerate(sc["ops"]):
                self.opi = i
                self.op(op)
                if self.prop == "C31":
                    self.check_copies(op)
                if self.prop == "C12":
                    self.check_shared()
                    self.check_others(op)
        except CapReached as e:
            if "once" in self.groups and self.armed:
                self.bad("no-termination", f"realization not finished after the cap of attempts/draws ({e})")
            raise Inconclusive("cap")
        finally:
            LINES.stop()
            g.set_mode("fair")
            DRAWS.cap = None

    def check_others(self, op):
        """C12: the simulations an operation did not concern answer every question as before, and every simulation reports
        its own sequence"""
        flat = repr(op)
        for key, it in self.inst.items():
            if it.broken:
                self.snap.pop(key, None)
                continue
            a = self.call("queries", observables, it.obj, it.cls)
            self.stats["oracle_checks"] += 1
            b = self.snap.get(key)
            if b is not None and repr(key) not in flat:
                for k in a:
                    if a[k] != b[k]:
                        self.bad("changed-by-another", f"{it.cls} L={it.L}: {k} was {short(b[k])} and is {short(a[k])} after "
                                                       f"{short(op)}, which does not concern it")
            self.snap[key] = a
            n = len(it.m.order)
            if a["ids"][:n] != it.m.order:
                self.bad("foreign-sequence", f"{it.cls} L={it.L}: reported sequence {short(a['ids'])}, sites were occupied in the "
                                             f"order {short(it.m.order)}")
            if list(a["indices"][:n]) != [divmod(x, it.L) for x in it.m.order]:
                self.bad("foreign-sequence", f"{it.cls} L={it.L}: reported indices {short(a['indices'])}, sites were occupied in "
                                             f"the order {short(it.m.order)}")

    # ------------------------------------------------------------------ C31: copies and saved simulations
    def check_copies(self, op):
        """what an operation did to one simulation is not seen through its original or its copies"""
        flat = repr(op)
        for key, it in self.inst.items():
            if it.broken:
                self.snap.pop(key, None)
                continue
            a = self.call("queries", observables, it.obj, it.cls)
            self.stats["oracle_checks"] += 1
            b = self.snap.get(key)
            if b is not None and repr(key) not in flat:
                self.same("changed-through-copy", f"{it.cls} L={it.L}, after {short(op)} on another simulation", b, a)
            self.snap[key] = a

    def same(self, kind, who, a, b):
        if set(a) != set(b):
            return
        for k in a:
            if not close(a[k], b[k]):
                self.bad(kind, f"{who}: {k} is {short(b[k])} instead of {short(a[k])}")

    def duplicate(self, it, how):
        if how == "deepcopy":
            return self.call("copy.deepcopy(simulation)", copy.deepcopy, it.obj)
        if how == "pair":           # together with something else that refers to it
            return self.call("copy.deepcopy(results)", copy.deepcopy, {"sim": it.obj, "again": [it.obj]})["again"][0]
        data = self.call("pickle.dumps(simulation)", pickle.dumps, it.obj, how)
        return self.call("pickle.loads(saved simulation)", pickle.loads, data)

    def op_copy(self, key, key2, how):
        """a copy of the simulation, in whatever state it is, goes on as a simulation of its own"""
        it = self.inst[key]
        c = Inst(key2, it.cls, it.L, it.seed)
        c.__dict__.update({k: copy.deepcopy(v, {id(it.t): it.t}) for k, v in it.__dict__.items() if k not in ("obj", "kept")})
        c.key, c.kept = key2, []
        c.obj = self.duplicate(it, how)
        self.inst[key2] = c
        self.probe("copy_" + str(how))
        self.probe("copied_in_mid_realization", int(bool(it.m.order) and not it.done))
        if it.broken:
            self.probe("copied_after_cut_operation")
            return
        self.stats["oracle_checks"] += 1
        a = self.call("queries", observables, it.obj, it.cls)
        self.same("copy-differs", f"{how} of {it.cls} L={it.L} with {len(it.m.order)} sites", a,
                  self.call("queries", observables, c.obj, c.cls))

    def op_restart(self, keys, cont):
        """the process that saved the simulations dies; another one loads them and goes on like the first would have"""
        was, saved, ahead = {}, {}, {}
        for key in keys:
            it = self.inst[key]
            if it.broken:
                continue
            was[key] = self.call("queries", observables, it.obj, it.cls)
            saved[key] = self.call("pickle.dumps(simulation)", pickle.dumps, it.obj)
            if cont and not it.done:
                ahead[key] = self.continuation(it, self.call("pickle.loads", pickle.loads, saved[key]), key, cont)
        left = {k: self.inst[k] for k in saved}
        self.inst.clear()
        self.snap.clear()
        self.fault("process_restart")
        global _classes
        for m in [m for m in sys.modules if m.split(".")[0] in ("source_py", "run_py", "main")]:
            del sys.modules[m]
        _classes = None
        classes()
        seams.reseed_process(self.sc["entropy"] + "/restarted")
        for key, it in left.items():
            it.obj = self.call("pickle.loads(saved simulation) in a new process", pickle.loads, saved[key])
            it.kept = []
            self.inst[key] = it
            who = f"{it.cls} L={it.L} with {len(it.m.order)} sites, restored in a new process"
            self.stats["oracle_checks"] += 1
            self.same("restored-differs", who, was[key], self.call("queries", observables, it.obj, it.cls))
            if key in ahead:
                c = self.call("pickle.loads", pickle.loads, saved[key])
                b = self.continuation(it, c, key, cont)
                if ahead[key] is not None and b is not None:
                    self.same("continues-differently", who + " and completed", ahead[key], b)

    def continuation(self, it, o, script, more):
        """results of completing this (copy of a) simulation, under random choices that are a function of `script`; with `more`
        also those of a reset and another run"""
        g = seams.global_random()
        state, adv, total = g.getstate(), copy.deepcopy(g.adv), DRAWS.total
        ent = (seams.ENTROPY.key, seams.ENTROPY.n)
        d0 = DRAWS.cap
        DRAWS.cap = DRAWS.total + 4000 * it.t.N
        try:
            g.seed(f"{self.sc['entropy']}/{script}")
            n = 0
            steps = []
            while self.call("place_one_site()", o.place_one_site):
                if o.selection_flag == classes()["State"].SUCESS:
                    w = self.call("detect_wrapping()", o.detect_wrapping)
                    steps.append((bool(w), o.occupation_prob(), o.entropy(), o.order_param_largest_clstr(),
                                  o.order_param_wrapping(), o.get_pc()))
                n += 1
                if n > 40 * it.t.N + 200:
                    return None
            self.stats["oracle_checks"] += 1
            # if it chooses as it goes and does not ask the shared generator, its choices cannot be repeated here
            if it.cls in BIASED and DRAWS.total == total and n:
                return None
            a = self.call("queries", observables, o, it.cls)
            a["values after each placement"] = steps
            if more == 2:
                drawn = DRAWS.total
                self.call("reset()", o.reset)
                self.call("run_once()", o.run_once)
                if DRAWS.total > drawn or it.seq is not None:
                    a.update({k + " after reset and run": v
                              for k, v in self.call("queries", observables, o, it.cls).items()})
            return a
        finally:
            DRAWS.cap = d0
            g.setstate(state)
            g.adv, DRAWS.total = adv, total
            seams.ENTROPY.key, seams.ENTROPY.n = ent

    def op_same(self, key, key2, how, more):
        """a simulation and its copy, if both are where they were, come to the same results"""
        it, c = self.inst[key], self.inst[key2]
        if it.broken or c.broken or it.m.order != c.m.order:
            return
        a = self.continuation(it, self.duplicate(it, how), key, more)
        b = self.continuation(c, self.duplicate(c, how), key, more)
        if a is not None and b is not None:
            self.probe("continuations_compared")
            self.same("continues-differently", f"copy of {it.cls} L={it.L} with {len(it.m.order)} sites, completed", a, b)

    def check_shared(self):
        for k, v in self.shared.items():
            if v != self.shared_copy[k]:
                self.bad("input-modified", f"the caller's sequence object was changed from {self.shared_copy[k]} to {v}")

    def op(self, op):
        name = op[0]
        self.log("op", op)
        getattr(self, "op_" + name)(*op[1:])

    # ------------------------------------------------------------------ operations
    def op_new(self, key, cls, L, seed=None):
        it = Inst(key, cls, L, seed)
        kw = {"length": L}
        if seed is not None:
            kw["seed"] = seed
        it.obj = self.call(f"{cls}(**{kw})", classes()[cls], **kw)
        self.inst[key] = it
        self.step_checks(it)

    def op_reset(self, key):
        it = self.inst[key]
        self.armed_reset(it)
        self.call("reset()", it.obj.reset)
        self.stats["resets"] += 1
        it.fresh_state()
        if it.cls in BIASED:
            it.seq = None
        self.step_checks(it)
        if self.prop == "C09":
            self.just_reset(it)

    def just_reset(self, it):
        """everything that can be asked of a simulation that has just been reset, against a newly built one"""
        self.stats["oracle_checks"] += 1
        key = it.cls, it.L
        if key not in self.new_obs:
            state = seams.global_random().getstate()
            self.new_obs[key] = observables(self.call("new simulation", classes()[it.cls], length=it.L), it.cls)
            seams.global_random().setstate(state)
        a, b = self.call("queries", observables, it.obj, it.cls), self.new_obs[key]
        for k in a:
            if not close(a[k], b[k]) and (it.cls in BIASED or k not in ("ids", "indices")):
                self.bad("visible-after-reset", f"{it.cls} L={it.L}: {k} after a reset is {short(a[k])}, of a newly built simulation "
                                                f"{short(b[k])}")

    def armed_reset(self, it):
        if self.prop == "C09":
            self.armed = True

    def op_custom(self, key, kind, seq, shuffle=False, shared=None):
        """set a custom sequence (site ids, or index pairs)"""
        it = self.inst[key]
        L = it.L
        if kind == "idx":
            arg = [(s // L, s % L) for s in seq]
        elif kind == "idxlist":
            arg = [[s // L, s % L] for s in seq]
        else:
            arg = list(seq)
        if shared is not None:
            k = f"{shared}/{kind}"
            if k not in self.shared:
                self.shared[k] = arg
                self.shared_copy[k] = list(arg)
                arg = self.shared[k]
            else:
                arg = self.shared[k]
                seq = self.shared_copy[k] if kind == "id" else [a[0] * L + a[1] for a in self.shared_copy[k]]
        f = it.obj.set_custome_site_id_list if kind == "id" else it.obj.set_custome_site_index_list
        self.call(f"custom sequence({kind}, {len(seq)} sites, shuffle={shuffle})", f, arg, shuffle)
        n = len(it.m.order)
        if n and (shuffle or it.shuffle or list(seq[:n]) != it.m.order):
            it.broken = True        # another sequence in the middle of a realization: only a reset may come next
        it.seq = list(seq)
        it.seqs = None
        it.shuffle = shuffle
        it.done = False

    def op_custom_kind(self, key, n):
        """an order of one of the generator's shapes"""
        from .gen import order
        self.op_custom(key, "id", order(seams.REAL.Random(n), self.inst[key].L)[0])

    def gids(self, it):
        g = it.obj.lattice_ref.get_site_gid_by_id
        return [g(i) for i in range(it.t.N)]

    def placed_now(self, it):
        occ = it.m.occ
        g = it.obj.lattice_ref.get_site_by_id
        if it.t.N > BIG and self.stats["steps"] % (it.t.N // 6):
            # large lattice: looking at all sites is left to every (N/6)th attempt
            if it.obj.selection_flag != classes()["State"].SUCESS:
                return []
            s = getattr(it.obj, "selected_id", None)
            if isinstance(s, int) and 0 <= s < it.t.N and g(s).is_occupied() and not occ[s]:
                return [s]
        return [i for i in range(it.t.N) if g(i).is_occupied() != occ[i]]

    def after_attempt(self, it, ret):
        """follow one attempt with the model; returns the newly occupied site or None"""
        S = classes()["State"]
        it.attempts += 1
        self.stats["steps"] += 1
        flag = it.obj.selection_flag
        changed = self.placed_now(it)
        vac = [s for s in changed if it.m.occ[s]]
        once = "once" in self.groups and self.armed
        if once:
            if vac:
                self.bad("site-vacated", f"sites {vac} lost their label during a placement attempt")
            if flag == S.SUCESS:
                if not ret:
                    self.bad("attempt-result", "successful selection reported as end of the realization")
                if len(changed) != 1:
                    self.bad("not-one-site", f"a successful attempt occupied {changed} (expected exactly one empty site)")
            elif changed:
                self.bad("failed-attempt-changed-state", f"attempt reported {flag} but occupied {changed}")
            if flag == S.EMPTY_SITE_LIST and ret:
                self.bad("attempt-result", "exhausted selection reported as progress")
            if flag == S.CURRENT_SITE_NOT_EMPTY and not ret:
                self.bad("attempt-result", "failed attempt reported as end of the realization")
            if it.attempts > 20 * it.t.N + 100:
                raise CapReached("attempts")
        elif it.attempts > 40 * it.t.N + 200:
            raise CapReached("attempts")
        new = [s for s in changed if not it.m.occ[s]]
        for s in new:
            it.m.place(s)
            it.fail_at[s] = it.attempts - len(it.m.order)
            self.stats["placed"] += 1
        if not new:
            self.stats["failed_attempts"] += 1
        self.log("att", it.key, flag.name, new)
        if it.t.N > BIG:
            if self.stats["steps"] % (it.t.N // 6) == 0:
                self.probe("large_lattice")
                self.states.add(it.m.state_hash() & 0xffffffffffff)
        elif self.stats["steps"] % 7 == 0 or it.t.N <= 25:
            self.states.add(it.m.state_hash() & 0xffffffffffff)
        return new[-1] if new else None

    def attempt(self, it):
        """place one site, test wrapping, check everything; False at the end of the realization"""
        S = classes()["State"]
        ret = self.call("place_one_site()", it.obj.place_one_site)
        self.after_attempt(it, ret)
        if it.obj.selection_flag == S.SUCESS:
            if self.prop in ("C03", "C04", "C05", "C12") and self.stats["steps"] % 3 == 0:
                # asked before the wrapping test already
                for f in ("order_param_wrapping", "order_param_largest_clstr", "entropy", "get_pc", "occupation_prob"):
                    self.call(f + "()", getattr(it.obj, f))
            w = self.call("detect_wrapping()", it.obj.detect_wrapping)
            self.check_wrap(it, w)
            it.pure = False
        self.step_checks(it)
        if not ret:
            self.finished(it)
        return ret

    def expected_count(self, it):
        return it.t.N if it.seq is None else len(it.seq)

    def finished(self, it):
        it.done = True
        self.stats["realizations"] += 1
        it.realizations += 1
        self.log("done", it.key, it.m.order)
        if "once" in self.groups and self.armed:
            self.stats["oracle_checks"] += 1
            if it.seq is None or it.cls in BIASED:
                want = set(range(it.t.N))
                if it.seq is not None and it.cls in BIASED:
                    want = None
            else:
                want = set(it.seq)
            got = set(it.m.order)
            if it.seqs is not None and it.cls not in BIASED:
                # cut while a sequence was being given: either sequence, or as much of one as the other is long
                few = min(map(len, it.seqs))
                want = next((q for q in it.seqs if q == got), None) or \
                    next((got for q in it.seqs if len(got) == few and got <= q), it.seqs[-1])
            if want is not None and got != want:
                self.bad("not-every-site-once", f"occupied {len(got)} sites; missing {sorted(want - got)[:10]}, "
                                                f"extra {sorted(got - want)[:10]}")
            if len(got) != len(it.m.order):
                self.bad("site-twice", "a site was occupied twice")
            if it.seq is not None and it.cls not in BIASED and not it.shuffle and not it.broken \
                    and it.m.order != it.seq:
                self.bad("custom-order", f"order {it.m.order} differs from the custom sequence {it.seq}")

    def op_place(self, key, k):
        it = self.inst[key]
        if it.broken or it.done:
            return
        for _ in range(k):
            if not self.attempt(it):
                break

    def op_finish(self, key):
        it = self.inst[key]
        if it.broken or it.done:
            return
        while self.attempt(it):
            pass
        self.after_realization(it)

    def op_run(self, key, spied=True):
        it = self.inst[key]
        if it.broken:
            return
        obj = it.obj
        spy_hits = 0
        orig = obj.place_one_site
        expect_rows = []
        S = classes()["State"]
        pending = [False]
        cap = 40 * it.t.N + 200

        def flush():
            # values recorded for the last placement of this run
            if pending[0]:
                m = it.m
                expect_rows.append((len(m.order) / it.t.N, m.entropy(), m.p_largest(), m.p_wrapping()))
                pending[0] = False
                if "line" in self.groups and it.p_star is None and m.straight_line():
                    it.p_star = len(m.order)
                    self.probe("line_after_wrap_delay" if m.wrap_at != len(m.order) else "line_at_wrap")

        def spy():
            nonlocal spy_hits
            spy_hits += 1
            flush()
            ret = orig()
            new = self.after_attempt(it, ret)
            if obj.selection_flag == S.SUCESS:
                if new is None and "once" in self.groups and self.armed:
                    self.bad("not-one-site", "a successful attempt occupied nothing")
                pending[0] = True
                self.step_checks(it, inside_run=True)
            return ret

        obj.place_one_site = spy
        d0 = DRAWS.cap
        DRAWS.cap = DRAWS.total + 50 * cap
        try:
            self.call("run_once()", obj.run_once)
        finally:
            DRAWS.cap = d0
            try:
                del obj.place_one_site
            except AttributeError:
                pass
        flush()
        if spy_hits == 0:
            # run_once does not go through place_one_site: take the order the simulation reports
            order = list(self.call("get_site_id_sequence()", obj.get_site_id_sequence))
            n = sum(1 for i in range(it.t.N) if obj.lattice_ref.get_site_by_id(i).is_occupied())
            for s in order[len(it.m.order):n]:
                it.m.place(s)
                pending[0] = True
                flush()
        if it.cls != "SP":
            it.rows.extend(expect_rows)
            self.finished(it)
            self.check_series(it)
        else:
            it.done = True
            self.stats["realizations"] += 1
            it.realizations += 1
            self.log("done", it.key, it.m.order)
        self.check_wrap(it, None)
        self.step_checks(it)
        self.check_line(it)
        self.after_realization(it)

    def op_intr(self, key, inner, nth, exc):
        """run an operation with an exception injected at the nth executed repository line"""
        it = self.inst[key]
        if it.broken and inner[0] not in ("reset", "custom"):
            return
        if inner[0] in ("place", "finish") and it.done:
            return
        E = {"kbd": SimInterrupt, "mem": SimMemoryError}[exc]
        if inner[0] == "reset":
            self.armed_reset(it)
        fired = []

        def handler(n):
            fired.append(LINES.last)
            LINES.targets = None
            raise E(f"injected at line event {n}")

        if isinstance(nth, dict):
            nth = self.resolve_line(it, inner, nth)
        LINES.start(handler, {nth})
        try:
            if inner[0] == "custom":
                self.cut_custom(it, inner)
                LINES.stop()
            elif inner[0] == "reset":
                it.obj.reset()
                LINES.stop()
                self.stats["resets"] += 1
                it.fresh_state()
                if it.cls in BIASED:
                    it.seq = None
                self.step_checks(it)
            else:
                self.quiet_op(it, inner)
                LINES.stop()
        except (SimInterrupt, SimMemoryError):
            LINES.stop()
            it.broken = True
            if "geo" in self.groups and inner[0] != "reset":
                self.check_geometry(it, True)       # adjacency does not depend on how far the operation came
            f = fired[0] if fired else ("?", "?")
            self.fault(f"{exc}@{f[1]}")
            self.log("interrupted", f)
        except (CapReached, Violation, HarnessError, Inconclusive):
            LINES.stop()
            raise
        except Exception as e:
            LINES.stop()
            if not self.armed or (fired and inner[0] != "reset"):
                it.broken = True        # the injected exception surfaced as another one: still just an interrupted op
                return
            if fired:
                it.broken = True
                return
            self.bad("exception", f"{inner[0]} raised {type(e).__name__}: {str(e)[:200]}")
        finally:
            self.stats["lines"] += LINES.n

    def resolve_line(self, it, inner, spec):
        """position of the interrupt relative to the length of the operation, measured on a copy"""
        g = seams.global_random()
        state, adv, total = g.getstate(), copy.deepcopy(g.adv), DRAWS.total
        ent = (seams.ENTROPY.key, seams.ENTROPY.n)
        c = copy.deepcopy(it.obj)
        LINES.start(lambda n: None, set())
        try:
            if inner[0] == "reset":
                c.reset()
            elif inner[0] == "custom":
                f, arg = self.custom_call(c, it.L, inner[2], inner[3])
                f(arg, inner[4])
            elif inner[0] == "run":
                c.run_once()
            else:
                for _ in range(inner[2]):
                    if not c.place_one_site():
                        break
        except (CapReached, HarnessError):
            raise
        except Exception:
            pass        # the real operation will show it
        finally:
            n = LINES.n
            LINES.stop()
            g.setstate(state)
            g.adv, DRAWS.total = adv, total
            seams.ENTROPY.key, seams.ENTROPY.n = ent
        if "end" in spec:
            return max(1, n - spec["end"])
        return 1 + int(spec["frac"] * max(0, n - 1))

    def quiet_op(self, it, inner):
        """the body of an interruptible operation: no oracle runs inside (it may be cut anywhere)"""
        S = classes()["State"]
        o = it.obj
        if inner[0] == "place":
            for _ in range(inner[2]):
                r = o.place_one_site()
                self.after_attempt(it, r)
                if o.selection_flag == S.SUCESS:
                    o.detect_wrapping()
                    it.pure = False
                if not r:
                    it.done = True
                    break
        elif inner[0] == "run":
            o.run_once()
            it.broken = True        # completed without being followed by the model: only a reset may come next
        else:
            raise HarnessError("intr " + inner[0])

    @staticmethod
    def custom_call(o, L, kind, seq):
        if kind == "id":
            return o.set_custome_site_id_list, list(seq)
        pair = (lambda *a: a) if kind == "idx" else (lambda *a: list(a))
        return o.set_custome_site_index_list, [pair(s // L, s % L) for s in seq]

    def cut_custom(self, it, inner):
        """giving a sequence may be cut anywhere: after the next reset the old or the new one is in force, never a mixture"""
        _, _, kind, seq, shuffle = inner
        old = it.seqs if it.seqs is not None else [set(range(it.t.N) if it.seq is None else it.seq)]
        it.seqs = [q for q in old if q != set(seq)] + [set(seq)]
        it.seq, it.shuffle = list(seq), True        # the order itself is not known
        it.broken = True
        f, arg = self.custom_call(it.obj, it.L, kind, seq)
        f(arg, shuffle)
        it.seqs, it.shuffle = None, shuffle         # not cut after all

    # ------------------------------------------------------------------ oracles
    def check_wrap(self, it, ret):
        if "wrap" not in self.groups or not self.armed or not it.tested:
            return
        m, o = it.m, it.obj
        self.stats["oracle_checks"] += 1
        want = m.wrap_at is not None
        if ret is not None and bool(ret) != want:
            self.bad("wrap-test", f"wrapping reported {bool(ret)} after {len(m.order)} placements, reference says {want} "
                                  f"(L={it.L}, order {m.order[-12:]})")
        pc = self.call("get_pc()", o.get_pc)
        sc = self.call("site count at pc", o.get_site_count_wrapping_cluster_pc)
        bc = self.call("bond count at pc", o.get_bond_count_wrapping_cluster_pc)
        if want:
            if not it.wrapped_seen:
                it.wrapped_seen = True
                self.stats["wraps"] += 1
            e = (m.wrap_at / it.t.N, m.wrap_sites, m.wrap_bonds)
        else:
            e = (0, 0, 0)
        if abs(pc - e[0]) > EPS or sc != e[1] or bc != e[2]:
            self.bad("critical-values", f"(pc, sites, bonds) = {(pc, sc, bc)}, reference {e}, after {len(m.order)} "
                                        f"placements on L={it.L}")

    def step_checks(self, it, inside_run=False):
        if not self.armed or it.broken:
            return
        g = self.groups
        m, o, t = it.m, it.obj, it.t
        N, n = t.N, len(m.order)
        if self.sparse:
            full = n % 11 == 0 or n == N
        elif N > BIG:
            full = it.looked != n and (n % (N // 9) == 0 or n == N or m.wrap_at == n)
            it.looked = n if full else it.looked
        else:
            full = N <= 150 or n % max(1, N // 100) == 0 or n in (1, 2, N) or (
                m.wrap_at is not None and n - m.wrap_at < 3)
        if "labels" in g and full:
            self.check_labels(it)
        if "lists" in g and full:
            self.check_lists(it)
        if "rel" in g and full:
            self.check_rel(it)
        if "entropy" in g:
            self.check_entropy(it, full)
        if "order" in g:
            self.check_order(it, inside_run)
        if "once" in g:
            self.stats["oracle_checks"] += 1
            p = self.call("occupation_prob()", o.occupation_prob)
            if abs(p - n / N) > EPS:
                self.bad("occupation-probability", f"{p} reported with {n} of {N} sites occupied")
        if "wrap" in g and n == 0 and it.tested:
            self.check_wrap(it, None)
        if "geo" in g and (full or n < 50) and (N <= 64 or n % (N // 32) == 0):
            self.check_geometry(it)
        if "views" in g and (N <= 36 or n % (N // 25) == 0) and (N <= BIG or full):
            self.check_view(it, self.pick.choice(VIEWS))

    def check_labels(self, it):
        self.stats["oracle_checks"] += 1
        m, t = it.m, it.t
        lat = it.obj.lattice_ref
        comp_of, gid_of = {}, {}
        for b in range(t.B):
            gid = lat.get_bond_gid_by_id(b)
            c = m.bfind(b)
            if gid is None or gid < 0:
                self.bad("bond-unlabelled", f"bond {b} has label {gid}")
            if comp_of.setdefault(gid, c) != c:
                self.bad("labels-join", f"label {gid} covers bonds of two different clusters (bond {b}), "
                                        f"L={it.L}, order {m.order}")
            if gid_of.setdefault(c, gid) != gid:
                self.bad("labels-split", f"one cluster carries labels {gid_of[c]} and {gid} (bond {b}), "
                                         f"L={it.L}, order {m.order}")
        for s in range(t.N):
            gid = lat.get_site_gid_by_id(s)
            if not m.occ[s]:
                if gid >= 0 or lat.get_site_by_id(s).is_occupied():
                    self.bad("empty-site-labelled", f"empty site {s} carries label {gid}")
                continue
            c = m.bfind(t.bonds[s][0])
            if gid_of.get(c) != gid:
                self.bad("site-label", f"site {s} carries label {gid}, its cluster's bonds carry {gid_of.get(c)}, "
                                       f"L={it.L}, order {m.order}")
        if t.N <= 36 and len(m.order) % 5 == 0:
            # independent recomputation from scratch
            lab = {}
            for members, wraps, nb in brute(it.L, m.order):
                gs = {lat.get_site_gid_by_id(s) for s in members}
                if len(gs) != 1:
                    self.bad("labels-split", f"connected sites {members} carry labels {sorted(gs)}")
                (x,) = gs
                if x in lab:
                    self.bad("labels-join", f"separate clusters {members} and {lab[x]} share label {x}")
                lab[x] = members

    def check_lists(self, it):
        self.stats["oracle_checks"] += 1
        m, t = it.m, it.t
        pool, lat = it.obj.cluster_pool_ref, it.obj.lattice_ref
        bseen, sseen = [0] * t.B, [0] * t.N
        nb_t = ns_t = 0
        for c in range(t.B):
            bs = self.call("get_bonds", pool.get_bonds, c)
            ss = self.call("get_sites", pool.get_sites, c)
            nb, ns = pool.get_cluster_bond_count(c), pool.get_cluster_site_count(c)
            if nb != len(bs) or ns != len(ss):
                self.bad("size", f"cluster {c} reports {nb} bonds/{ns} sites but lists {len(bs)}/{len(ss)}")
            for b in bs:
                if bseen[b]:
                    self.bad("bond-twice", f"bond {b} is listed twice (again in cluster {c}), order {m.order}")
                bseen[b] = 1
                if lat.get_bond_gid_by_id(b) != c:
                    self.bad("bond-label", f"bond {b} listed in cluster {c} carries label {lat.get_bond_gid_by_id(b)}")
            for s in ss:
                if sseen[s]:
                    self.bad("site-twice", f"site {s} is listed twice (again in cluster {c}), order {m.order}")
                sseen[s] = 1
                if lat.get_site_gid_by_id(s) != c:
                    self.bad("site-label", f"site {s} listed in cluster {c} carries label {lat.get_site_gid_by_id(s)}")
            nb_t += nb
            ns_t += ns
        if nb_t != t.B:
            self.bad("bond-lost", f"clusters list {nb_t} of {t.B} bonds, order {m.order}")
        occ = [s for s in range(t.N) if sseen[s] != m.occ[s]]
        if occ:
            self.bad("site-lost", f"sites {occ[:10]} are listed/missing wrongly, order {m.order}")

    def check_geometry(self, it, static=False):
        """C24: every way to ask for neighbours, bonds, ids, indices and labels gives the answer of the periodic lattice"""
        self.stats["oracle_checks"] += 1
        m, t, L, o = it.m, it.t, it.L, it.obj
        lat, N = o.lattice_ref, t.N
        sites = range(N) if N <= 16 else self.pick.sample(range(N), 8) + m.order[-2:]

        def same(what, got, want):
            if got != want:
                self.bad("neighbour-query", f"{it.cls} L={L}: {what} is {short(got)}, on the periodic lattice {short(want)}; after "
                                            f"{len(m.order)} placements, order {m.order[-12:]}")

        def ask(f, *a):
            x = self.call(f.__name__, f, *a)
            if x is None:
                self.bad("no-answer", f"{it.cls} L={L}: {f.__name__}{short(a)} returned None")
            return x
        for s in sites:
            row, col = divmod(s, L)
            bonds, near = sorted(t.bonds[s]), sorted(x for _, _, x in t.nbr[s])
            for f in (lat.get_neighbor_bonds, lat.find_neighbor_bonds):
                same(f"{f.__name__}({s})", sorted(ask(f, s)), bonds)
            for f in (lat.get_site_neighbor_of_site, lat.get_all_neighbor_sites, getattr(o, "get_four_neighbor_sites", None)):
                if f is not None:
                    same(f"{f.__name__}({s})", sorted(ask(f, s)), near)
            site = ask(lat.get_site_by_id, s)
            same(f"get_connected_sites(site {s})", sorted(ask(o.get_connected_sites, site, list(t.bonds[s]))), near)
            for i, b in enumerate(t.bonds[s]):
                x = t.nbr[s][i][2]
                same(f"get_neighbor_sites({b})", sorted(ask(lat.get_neighbor_sites, b)), sorted((s, x)))
                same(f"get_neighbor_site({s}, {b})", ask(o.get_neighbor_site, s, b), x)
                same(f"distance of {s} and {x}", sorted(ask(lat.distance_btn_sites, site, lat.get_site_by_id(x))), [0, 1])
                ends = [site.get_index(), lat.get_site_by_id(x).get_index()]
                same(f"distance of the positions of {s} and {x}", sorted(ask(lat.distance_btn_sites, *ends)), [0, 1])
                bond = ask(lat.get_bond_by_id, b)
                same(f"id of bond {b}", bond.get_id(), b)
                same(f"sites of bond {b}", sorted(ask(bond.connected_sites)), sorted((s, x)))
            same(f"right and bottom bond of {s}", [ask(lat.get_bond_by_index, row, col, k).get_id() for k in (0, 1)], [s, s + N])
            same(f"bonds of site {s}", sorted(ask(site.connecting_bonds)), bonds)
            ix = ask(site.get_index)
            same(f"index of site {s}", (ix.row(), ix.column(), site.get_id()), (row, col, s))
            same(f"get_id_from_index{(row, col)}", ask(lat.get_id_from_index, row, col), s)
            same(f"get_row_col_from_id({s})", tuple(ask(lat.get_row_col_from_id, s)), (col, row))
            same(f"calculate_id_from_index{(row, col)}", ask(lat.calculate_id_from_index, ix), s)
            same(f"site at {(row, col)}", ask(lat.get_site_by_index, ix).get_id(), s)
            if static:
                continue
            gid = ask(lat.get_site_gid_by_id, s)
            same(f"occupation of site {s}", bool(ask(site.is_occupied)), m.occ[s])
            same(f"labels of site {s}", (ask(site.get_gid), ask(lat.get_site_gid_by_index, ix)), (gid, gid))
            gids = [ask(lat.get_bond_gid_by_id, b) for b in t.bonds[s]]
            same(f"labels of the bonds of {s}", [ask(lat.get_bond_by_id(b).get_gid) for b in t.bonds[s]], gids)
            same(f"get_bond_gids of the bonds of {s}", sorted(ask(o.get_bond_gids, list(t.bonds[s]))), sorted(set(gids)))
            same(f"get_site_gids of site {s} and its neighbours", sorted(ask(o.get_site_gids, [s] + near)),
                 sorted({gid} | {lat.get_site_gid_by_id(x) for x in near}))
            u = list(ask(o.uniqe_gid_bond_neighbors, list(t.bonds[s])))
            of = dict(zip(t.bonds[s], gids))
            if not set(u) <= set(of) or sorted(of[b] for b in u) != sorted(set(gids)):
                same(f"bonds of {s}, one per cluster", u, of)
            if m.occ[s]:
                same(f"neighbours of {s} in its cluster", sorted(ask(lat.get_sites_for_wrapping_test, s)),
                     [x for x in near if m.occ[x]])

    def check_view(self, it, what):
        """C25: what a view prints is what the lattice, the clusters and their members are"""
        self.stats["oracle_checks"] += 1
        self.probe(f"view_{what}")
        t, L, o, m = it.t, it.L, it.obj, it.m
        lat, pool, N = o.lattice_ref, o.cluster_pool_ref, t.N
        f = {"gids": lambda: o.viewLattice(4), "relative": lambda: o.viewLattice(3), "index": lambda: o.viewLattice(0),
             "labels": lambda: o.viewLattice(1), "ids": lambda: o.viewLattice(2), "clusters": o.viewCluster,
             "sites": lat.print_sites, "bonds": lat.print_bonds, "strings": lambda: None}[what]
        old, sys.stdout = sys.stdout, io.StringIO()
        try:
            self.call(f"view {what}", f)
            text = sys.stdout.getvalue()
        finally:
            sys.stdout = old
        ints = lambda x: [int(y) for y in re.findall(r"-?\d+", x)]
        sg, bg = lat.get_site_gid_by_id, lat.get_bond_gid_by_id

        def same(name, got, want):
            if got != want:
                self.bad("view", f"{it.cls} L={L}, {len(m.order)} sites occupied: {name} shows {short(got)}, true is {short(want)}")
        lines = text.splitlines()
        if what in ("gids", "relative"):
            rows = [x for x in lines if re.match(r"\s*\d+\s*\|", x)]
            same("number of rows", len(rows), L)
            for r_, line in enumerate(rows):
                head, *cells = line.rstrip().rstrip("|").split("|")
                want = []
                for s in range(r_ * L, r_ * L + L):
                    x = lat.get_site_by_id(s).get_relative_index()
                    want.append([sg(s)] + ([x.x_coord(), x.y_coord()] if what == "relative" else []))
                same(f"row {r_}", (ints(head), [ints(c) for c in cells]), ([r_], want))
        elif what in ("index", "labels", "ids"):
            rows = [x for x in lines if x.startswith("[")]
            same("number of rows", len(rows), 2 * L)
            for k, line in enumerate(rows):
                want = []
                for c in range(L):
                    s = k // 2 * L + c
                    if k % 2 == 0:
                        want += {"index": [k // 2, c] * 2, "labels": [sg(s), s, bg(s), s], "ids": [s, k // 2, c] * 2}[what]
                    else:
                        want += {"index": [k // 2, c], "labels": [bg(s + N), s + N], "ids": [s + N, k // 2, c]}[what]
                same(f"line {k}", ints(line), want)
        elif what == "clusters":
            got = {}
            for i, g, n1, ss, n2, bs in re.findall(r"\[\s*(-?\d+)\s*\]\s*\(gid\s*(-?\d+)\s*\)[^\[]*?\((\d+)\)\s*\[([^\]]*)\][^\[]*?"
                                                   r"\((\d+)\)\s*\[([^\]]*)\]", text):
                if int(i) in got:
                    self.bad("view", f"cluster {i} is shown twice")
                got[int(i)] = (int(g), int(n1), sorted(ints(ss)), int(n2), sorted(ints(bs)))
            want = {}
            for c in range(t.B):
                ss, bs = sorted(pool.get_sites(c)), sorted(pool.get_bonds(c))
                if ss or bs:
                    want[c] = (c, len(ss), ss, len(bs), bs)
            for c in set(got) | set(want):
                same(f"cluster {c}", got.get(c), want.get(c))
            same("number of clusters", [int(x) for x in re.findall(r"(?i)number of clusters\D*(\d+)", text)], [len(want)])
        elif what in ("sites", "bonds"):
            rows = [x for x in lines if x.startswith("[")]
            same("number of lines", len(rows), N if what == "sites" else t.B)
            for i, line in enumerate(rows):
                x = ints(line)
                if what == "sites":
                    same(f"site {i}", x[:3] + sorted(x[3:]), [i, sg(i), i] + sorted(t.bonds[i]))
                else:
                    s = i % N
                    same(f"bond {i}", x[:3] + sorted(x[3:]), [i, bg(i), i] + sorted((s, t.nbr[s][i // N][2])))
        else:
            for s in self.pick.sample(range(N), min(N, 6)):
                site, (r_, c) = lat.get_site_by_id(s), divmod(s, L)
                for fm, want in ((0, [r_, c]), (1, [sg(s), s]), (2, [s, r_, c])):
                    same(f"site {s} as string {fm}", ints(self.call("get_str", site.get_str, fm)), want)
                c = self.pick.randrange(t.B)
                same(f"cluster {c} as string", ints(str(pool.get_cluster(c)))[-2:], [len(pool.get_sites(c)), len(pool.get_bonds(c))])

    def check_rel(self, it):
        self.stats["oracle_checks"] += 1
        m, t, L = it.m, it.t, it.L
        get = it.obj.lattice_ref.get_site_by_id
        for s in m.order:
            a = get(s).get_relative_index()
            ax, ay = a.x_coord(), a.y_coord()
            root = m.find(s)
            for dr, dc, n in t.nbr[s][:2]:
                if not m.occ[n]:
                    continue
                b = get(n).get_relative_index()
                ex, ey = b.x_coord() - ax - dr, b.y_coord() - ay - dc
                if m.wraps[root]:
                    ok = ex % L == 0 and ey % L == 0
                else:
                    ok = ex == 0 and ey == 0
                if not ok:
                    self.bad("relative-index", f"sites {s} and {n} (displacement {(dr, dc)}) have relative coordinates "
                                               f"{(ax, ay)} and {(b.x_coord(), b.y_coord())}; L={L}, "
                                               f"winding={m.wraps[root]}, order {m.order}")

    def check_entropy(self, it, full):
        self.stats["oracle_checks"] += 1
        m, o = it.m, it.obj
        want = m.entropy()
        tol = EPS + ROUND * len(m.order)
        for name in ("entropy", "entropy_v2") + (("entropy_v1",) if full else ()):
            got = self.call(name + "()", getattr(o, name))
            if not abs(got - want) <= tol:
                self.bad("entropy", f"{name}() = {got!r}, reference {want!r} after {len(m.order)} placements, L={it.L}")

    def check_order(self, it, inside_run):
        self.stats["oracle_checks"] += 1
        m, o = it.m, it.obj
        a = self.call("order_param_largest_clstr()", o.order_param_largest_clstr)
        if abs(a - m.p_largest()) > EPS:
            self.bad("order-largest", f"{a} reported, reference {m.p_largest()} after {len(m.order)} placements, L={it.L}, "
                                      f"order {m.order[-20:]}")
        lc = self.call("largest_cluster()", o.largest_cluster)
        if lc != m.largest:
            self.bad("largest-cluster", f"{lc} bonds reported, reference {m.largest}")
        if not inside_run or (m.wrap_at is not None and m.wrap_at < len(m.order)):
            b = self.call("order_param_wrapping()", o.order_param_wrapping)
            if abs(b - m.p_wrapping()) > EPS:
                self.bad("order-wrapping", f"{b} reported, reference {m.p_wrapping()} after {len(m.order)} placements "
                                           f"(wrapping since {m.wrap_at}), L={it.L}")

    def check_series(self, it):
        """recorded series after a completed recorded run"""
        g, o, m = self.groups, it.obj, it.m
        if not self.armed or not (g & {"entropy", "order", "table"}):
            return
        rows = it.rows
        n = len(rows)
        self.stats["oracle_checks"] += 1
        if "entropy" in g:
            H = list(self.call("get_entropy_array()", o.get_entropy_array))
            self.cmp_series("entropy series", H, [r[1] for r in rows], EPS + ROUND * it.t.N)
        if "order" in g:
            self.cmp_series("largest-cluster series", list(self.call("series", o.get_order_param_largest_array)),
                            [r[2] for r in rows], EPS)
            self.cmp_series("wrapping series", list(self.call("series", o.get_order_param_wrapping_array)),
                            [r[3] for r in rows], EPS)
        if "table" in g:
            P = list(self.call("get_occupation_prob_array()", o.get_occupation_prob_array))
            self.cmp_series("occupation probability column", P, [r[0] for r in rows], EPS)
            a = self.call("get_data_array()", o.get_data_array)
            if tuple(a.shape) != (n, 4):
                self.bad("table-shape", f"table has shape {tuple(a.shape)}, {n} sites were placed by recorded runs")
            for j, name in enumerate(("p", "H", "P_largest", "P_wrapping")):
                self.cmp_series(f"table column {name}", [float(x) for x in a[:, j]], [r[j] for r in rows],
                                EPS + (ROUND * it.t.N if j == 1 else 0))
            for i, (b, c) in enumerate(it.kept):
                if b.shape != c.shape or not (b == c).all():
                    self.bad("table-rewritten", f"a table handed out earlier (the {i + 1}. of the last {len(it.kept)}) was "
                                                f"changed by later use of the simulation (L={it.L})")
            it.kept = it.kept[-3:] + [(a, a.copy())]

    def cmp_series(self, name, got, want, tol):
        if len(got) != len(want):
            self.bad("series-length", f"{name} has {len(got)} values, {len(want)} sites were placed by recorded runs")
        for i, (x, y) in enumerate(zip(got, want)):
            if x is None or y is None or not abs(x - y) <= tol:
                self.bad("series-value", f"{name}[{i}] = {x!r}, reference {y!r}")

    def check_line(self, it):
        if "line" not in self.groups or it.cls != "SP" or not self.armed or it.broken:
            return
        self.stats["oracle_checks"] += 1
        o, m = it.obj, it.m
        p = self.call("get_shortest_path_p()", o.get_shortest_path_p)
        n = len(m.order)
        k = it.p_star
        if k is None and not it.pure:
            return
        if k is None:
            if abs(p) > EPS:
                self.bad("p-star", f"p* = {p} but the wrapping cluster contains no full row or column (L={it.L}, "
                                   f"order {m.order})")
        else:
            if n != k or abs(p - k / it.t.N) > EPS:
                self.bad("p-star", f"p* = {p} after {n} placements, but the wrapping cluster first contained a full row or "
                                   f"column at placement {k} (p = {k / it.t.N}); L={it.L}, order {m.order}")
            pc = self.call("get_pc()", o.get_pc)
            if p + EPS < pc:
                self.bad("p-star-before-pc", f"p* = {p} < pc = {pc}")
        rows, cols = self.call("scan_all_rows()", o.scan_all_rows), self.call("scan_all_cols()", o.scan_all_cols)
        if bool(rows or cols) != m.straight_line():
            self.bad("line-scan", f"scans report {rows}/{cols}, reference {m.straight_line()}")
        self.stats["wraps"] += m.wrap_at is not None

    def after_realization(self, it):
        if "replay" in self.groups and self.armed and not it.broken and it.done:
            self.check_replay(it)

    def check_replay(self, it):
        """C14: reported sequences are the occupation order, and reproduce the results in an unbiased simulation"""
        self.stats["oracle_checks"] += 1
        o, m, L = it.obj, it.m, it.L
        ids = list(self.call("get_site_id_sequence()", o.get_site_id_sequence))
        idx = [tuple(x) for x in self.call("get_index_sequence()", o.get_index_sequence)]
        early = it.cls == "SP"      # ends at p*: the sites occupied so far are the beginning of the sequence
        if early:
            full, fullx = ids, idx
            ids, idx = ids[:len(m.order)], idx[:len(m.order)]
        if ids != m.order:
            self.bad("id-sequence", f"{it.cls}: reported site ids {ids} are not the occupation order {m.order}")
        if idx != [(s // L, s % L) for s in m.order]:
            self.bad("index-sequence", f"{it.cls}: reported site indices {idx} are not the occupation order {m.order}")
        idx = json.loads(json.dumps(idx))
        rows = it.rows if it.pure else None
        for how, seq in (("id", ids), ("index", idx)):
            q = self.call("SitePercolationL0()", classes()["L0"], length=L)
            f = q.set_custome_site_id_list if how == "id" else q.set_custome_site_index_list
            self.call(f"replay by {how}", f, seq)
            self.call("run_once() of the replay", q.run_once)
            ask = lambda obj, q: self.call(q + "()", getattr(obj, q))
            for name, f in (("pc", "get_pc"), ("site count at pc", "get_site_count_wrapping_cluster_pc"),
                            ("bond count at pc", "get_bond_count_wrapping_cluster_pc")):
                x, y = ask(q, f), ask(o, f)
                if abs(x - y) > EPS:
                    self.bad("replay-critical", f"{name}: replay by {how} gives {x}, recorded {y}")
            if early and it.pure:
                q = self.call("ShortestPathAfter_pc()", classes()["SP"], length=L)
                f = q.set_custome_site_id_list if how == "id" else q.set_custome_site_index_list
                self.call(f"replay by {how}", f, full if how == "id" else fullx)
                self.call("run_once() of the replay", q.run_once)
                x, y = [(ask(z, "get_shortest_path_p"), ask(z, "get_pc")) for z in (q, o)]
                if abs(x[0] - y[0]) > EPS or abs(x[1] - y[1]) > EPS:
                    self.bad("replay-critical", f"p*, pc: replay by {how} gives {x[0]}, {x[1]}, recorded {y[0]}, {y[1]}")
            if it.pure and rows is not None and not early:
                for name, f, tol in (("entropy", "get_entropy_array", 1e-9),
                                     ("largest series", "get_order_param_largest_array", EPS),
                                     ("wrapping series", "get_order_param_wrapping_array", EPS)):
                    self.cmp_series(f"{name} of replay by {how}", list(ask(q, f)), list(ask(o, f)), tol)

    # ------------------------------------------------------------------ C09: comparison with a fresh simulation
    def op_fresh_compare(self, key, seq):
        """reset, custom sequence, run; a newly built simulation of the same class does the same: all results equal"""
        it = self.inst[key]
        if it.cls in BIASED:
            return
        self.op_reset(key)
        self.op_custom(key, "id", seq, False)
        self.op_reset(key)
        it.shuffle = False
        self.op_run(key)
        q = self.call("new simulation", classes()[it.cls], length=it.L)
        self.call("custom", q.set_custome_site_id_list, list(seq), False)
        self.call("run_once() of the new simulation", q.run_once)
        self.stats["oracle_checks"] += 1
        a, b = observables(it.obj, it.cls), observables(q, it.cls)
        for k in a:
            if not close(a[k], b[k]):
                self.bad("differs-from-fresh", f"{k} after reset is {short(a[k])}, of a newly built simulation {short(b[k])} "
                                               f"(L={it.L}, sequence {seq})")

    # ------------------------------------------------------------------ C08: law of the next selection
    def op_law(self, key):
        it = self.inst[key]
        if it.broken or it.done or not self.armed:
            return
        if it.cls not in BIASED or it.seed is not None:
            return
        law = enumerate_step(self, it)
        self.stats["law_states"] += 1
        check_law(self, it, law)

    def op_drift(self, key, reals, until):
        """larger lattices: `reals` realizations up to an occupation of `until`, in which the numbers of attempts of many
        kinds (that fail, that occupy a site of an edge, of a block, of a class of positions, one reachable in a number of
        ways) are compared with the sums of their probabilities given the state before every attempt"""
        it = self.inst[key]
        if it.cls not in BIASED or it.seed is not None:
            return
        drift = Drift(it.t, it.cls)
        for k in range(reals):
            if k or it.m.order:
                self.op_reset(key)
            drift.start()
            while len(it.m.order) < until * it.t.N:
                drift.before()
                ret = self.call("place_one_site()", it.obj.place_one_site)
                drift.after(self.after_attempt(it, ret))
                if not ret:
                    break
                if it.attempts > 40 * it.t.N + 200:
                    raise CapReached("attempts")
        self.stats["law_paths"] += drift.n
        self.stats["oracle_checks"] += 1
        self.probe("law_drift")
        odd = drift.verdict()
        if odd:
            self.bad("selection-drift", f"{it.cls} L={it.L}: of {drift.n} attempts {odd}")

    def op_perm_law(self, key, cls, L, samples, seed=None, custom=None, use=0):
        """L0: uniform order; exact for tiny systems is impossible (N! outcomes), so positions are tested statistically"""
        perm_law(self, cls, L, samples, seed, custom, use)

    # ------------------------------------------------------------------ C10: inspections
    def op_twin(self, cls, L, seed, steps):
        """the same history twice from the same randomness; only the first pass is inspected; same observables after each step"""
        inspected = self.twin_pass(cls, L, seed, steps, True)
        seams.reseed_process(self.sc["entropy"])
        plain = self.twin_pass(cls, L, seed, steps, False)
        self.stats["oracle_checks"] += 1
        for i, (oa, ob) in enumerate(zip(inspected, plain)):
            for k in oa:
                if oa[k] != ob[k] and self.prop == "C27":
                    self.bad("refusal-changed-state", f"after step {i} ({short(steps[i])}), {k} is {short(oa[k])} in the "
                                                      f"simulation with refused requests, {short(ob[k])} without ({cls}, L={L})")
                if oa[k] != ob[k]:
                    self.bad("inspection-changed-state", f"after step {i} ({short(steps[i])}), {k} is {short(oa[k])} in the "
                                                         f"inspected simulation, {short(ob[k])} without inspections ({cls}, L={L})")
        if self.prop == "C27":
            return
        # the getters used for the comparison are inspections too: a third pass is looked at only once, at its end
        seams.reseed_process(self.sc["entropy"])
        oa, ob = plain[-1], self.twin_pass(cls, L, seed, steps, None)[-1]
        for k in oa:
            if oa[k] != ob[k]:
                self.bad("inspection-changed-state", f"at the end, {k} is {short(oa[k])} in a simulation whose getters were "
                                                     f"called after every step, {short(ob[k])} otherwise ({cls}, L={L})")

    def look(self, o, cls, L, spec):
        """an inspection, perhaps cut short: by an exception at its nth line, or by an output stream that fails"""
        inspect = REQUESTS.get(spec[0], globals()["inspect"])
        if len(spec) < 3:
            return inspect(self, o, cls, L, spec)
        how, n = spec[2]
        old = sys.stdout
        fired = []

        def handler(k):
            fired.append(LINES.last)
            LINES.targets = None
            raise (SimInterrupt if how == "kbd" else SimMemoryError)(f"injected at line event {k}")
        armed, self.armed = self.armed, False           # what an inspection that was cut short raises is not judged
        try:
            if how in ("kbd", "mem"):
                LINES.start(handler, {n})
            else:
                sys.stdout = FailingStream(n, fired)
            inspect(self, o, cls, L, spec[:2])
        except (SimInterrupt, SimMemoryError):
            pass
        except Inconclusive:
            if not fired:
                raise
        finally:
            if how in ("kbd", "mem"):
                LINES.stop()
                self.stats["lines"] += LINES.n
            sys.stdout = old
            self.armed = armed
        if fired:
            self.fault(f"{how}-in-{'refused-request' if spec[0] in REQUESTS else 'inspection'}")

    def twin_pass(self, cls, L, seed, steps, look):
        S = classes()["State"]
        kw = {} if seed is None else {"seed": seed}
        a = self.call("new", classes()[cls], length=L, **kw)
        out = []
        untested = False
        for i, st in enumerate(steps):
            kind = st[0]
            if kind == "look":
                for spec in st[1] if look else ():
                    # the lattice self check presumes that wrapping has been tested after each placement
                    if untested and spec[0] in ("test_lattice", "test_relative_index", "test_clusters"):
                        continue
                    self.stats["observations"] += 1
                    self.look(a, cls, L, spec)
            elif kind == "reset":
                self.call("reset()", a.reset)
                self.stats["resets"] += 1
                untested = False
            elif kind == "custom":
                self.call("custom", a.set_custome_site_id_list, list(st[1]), st[2])
            elif kind == "place":
                untested = untested or len(st) > 2
                for _ in range(st[1]):
                    ra = self.call("place_one_site()", a.place_one_site)
                    self.stats["steps"] += 1
                    if a.selection_flag == S.SUCESS and len(st) < 3:        # [.., .., "untested"]: no wrapping test
                        self.call("detect_wrapping()", a.detect_wrapping)
                    if not ra:
                        break
            elif kind == "run":
                # inspections in the middle of a run, at the placements given
                at = set(st[1])
                orig = a.place_one_site
                cnt = [0]

                def spy(orig=orig, cnt=cnt, at=at, specs=st[2]):
                    r = orig()
                    cnt[0] += 1
                    if cnt[0] in at and look:
                        for spec in specs:
                            if untested and spec[0] in ("test_lattice", "test_relative_index", "test_clusters"):
                                continue
                            self.stats["observations"] += 1
                            self.look(a, cls, L, spec)
                    return r
                a.place_one_site = spy
                try:
                    self.call("run_once()", a.run_once)
                finally:
                    del a.place_one_site
                self.stats["realizations"] += 1
            if look is None and i < len(steps) - 1:
                continue
            ob = observables(a, cls)
            self.log("twin", st[0], ob["occupation_prob"])
            self.states.add(hash((L, cls, tuple(ob["gids"]))) & 0xffffffffffff)
            out.append(ob)
        return out

    # ------------------------------------------------------------------ C28: reuse without bound
    def op_reuse(self, cls, L, seed, rounds, prog):
        """the same kind of realization again and again with one object: what it holds does not grow with their number"""
        kw = {} if seed is None else {"seed": seed}
        o = self.call("new", classes()[cls], length=L, **kw)
        sizes = []
        for k in range(rounds):
            for st in prog:
                kind = st[0]
                cut = st[-1] if isinstance(st[-1], dict) else None
                if kind == "look":
                    for spec in st[1]:
                        self.look(o, cls, L, spec)
                    continue
                if kind == "custom":
                    self.call("custom", o.set_custome_site_id_list, list(st[1]), st[2])
                    continue
                fired = []
                if cut:
                    def handler(n, exc=SimInterrupt if cut["how"] == "kbd" else SimMemoryError):
                        fired.append(LINES.last)
                        LINES.targets = None
                        raise exc(f"injected at line event {n}")
                    LINES.start(handler, {1 + (cut["n"] * (k + 1)) % cut["of"]})
                try:
                    if kind == "run":
                        self.call("run_once()", o.run_once)
                        self.stats["realizations"] += 1
                    elif kind == "reset":
                        self.call("reset()", o.reset)
                        self.stats["resets"] += 1
                    else:
                        S = classes()["State"]
                        for _ in range(st[1]):
                            self.stats["steps"] += 1
                            if not self.call("place_one_site()", o.place_one_site):
                                break
                            if o.selection_flag == S.SUCESS:
                                self.call("detect_wrapping()", o.detect_wrapping)
                except (SimInterrupt, SimMemoryError):
                    pass
                except Violation:
                    if not fired:
                        raise
                finally:
                    if cut:
                        LINES.stop()
                if fired:
                    self.fault(f"{cut['how']}-in-{kind}")
            self.call("reset()", o.reset)
            if k % 5 == 4:
                sizes.append(held(o))
        self.stats["oracle_checks"] += 1
        self.log("reuse", cls, L, rounds, seed, prog, observables(o, cls)["ids"])
        self.states.add(hash((L, cls, json.dumps(prog))) & 0xffffffffffff)
        d = [b - a for a, b in zip(sizes, sizes[1:])]
        n = len(d) // 2
        late, early = d[n:], d[:n]
        # a cache fills up; a leak goes on
        if len(late) >= 5 and min(late) > 0 and 2 * sum(late) > sum(early):
            self.bad("grows", f"{cls} L={L}: what the simulation holds after every fifth realization (each followed by a reset): "
                              f"{sizes}; program {short(prog)}")

    # ------------------------------------------------------------------ C29: self-checks
    def op_damage(self, key, kind, a, b):
        """damage one part of the state through its public interface: the self-checks that look at it must notice; then repair it"""
        it = self.inst[key]
        o, t, L = it.obj, it.t, it.L
        N, lat, pool = t.N, o.lattice_ref, o.cluster_pool_ref
        full = len(it.m.order) == N
        if it.broken or not it.tested:
            return
        try:
            self.check_labels(it), self.check_lists(it), self.check_rel(it)
        except Violation as e:
            raise Inconclusive(f"the state is not valid: {e.detail}")
        site, bond = lat.get_site_by_id(a % N), lat.get_bond_by_id(a % (2 * N))
        gid = lat.get_site_by_id(0).get_gid()
        checks = {"test_lattice": o.test_lattice, "test_clusters": o.test_clusters, "scan_sites": lat.scan_sites,
                  "scan_bonds": lat.scan_bonds, "test_neighbor_count": lat.test_neighbor_count,
                  "test_relative_index": lat.test_relative_index, "labels": lambda: lat.test_lattice(gid),
                  "test_site": site.test_site, "test_bond": bond.test_bond}
        usable = [c for c in checks if full or c != "labels"]

        def passes(when):
            for c in usable:
                self.stats["oracle_checks"] += 1
                self.call(f"{c} ({it.cls}, L={L}, {len(it.m.order)} sites, {when})", checks[c])

        def listed(lst, change):
            """change the list behind the answer `lst()`; None if it is only a copy"""
            x = lst()
            old = list(x)
            try:
                change(x)
            except (AttributeError, TypeError):
                return None
            if list(lst()) == old:
                return None

            def undo():
                lst()[:] = old
            return undo
        expect, undo = (), None
        if kind in ("site-label", "bond-label"):
            e = site if kind == "site-label" else bond
            g = b % (2 * N + 1) - 1
            if not full or e.get_gid() == g:
                return
            old = e.get_gid()
            e.set_gid(g)
            undo = (lambda: e.set_gid(old)) if e.get_gid() != old else None
            expect = ("test_lattice", "labels")
        elif kind in ("site-id", "bond-id"):
            e, n = (site, N) if kind == "site-id" else (bond, 2 * N)
            old = e.get_id()
            if old == b % n:
                return
            e.set_id(b % n)
            undo = (lambda: e.set_id(old)) if e.get_id() != old else None
            expect = ("test_lattice", "scan_sites" if kind == "site-id" else "scan_bonds")
        elif kind == "site-bonds":
            x = list(site.connecting_bonds())
            j, how = b % 4, b // 4 % 3
            if how == 0:
                undo = listed(site.connecting_bonds, lambda l: l.pop(j))
                expect = ("test_lattice", "test_neighbor_count", "scan_sites", "scan_bonds", "test_site")
            elif how == 1:
                undo = listed(site.connecting_bonds, lambda l: l.__setitem__(j, x[(j + 1) % 4]))
                expect = ("test_lattice", "test_neighbor_count", "scan_bonds", "test_site")
            else:
                f = b % (2 * N)
                if f in x:
                    return
                undo = listed(site.connecting_bonds, lambda l: l.__setitem__(j, f))
                expect = ("test_lattice", "scan_sites", "scan_bonds")
        elif kind == "bond-sites":
            x = list(bond.connected_sites())
            j, how = b % 2, b // 2 % 3
            if how == 0:
                undo = listed(bond.connected_sites, lambda l: l.pop(j))
                expect = ("test_lattice", "test_neighbor_count", "scan_sites", "scan_bonds", "test_bond")
            elif how == 1:
                undo = listed(bond.connected_sites, lambda l: l.__setitem__(j, x[1 - j]))
                expect = ("test_lattice", "scan_sites", "test_bond")
            else:
                f = b % N
                if f in x:
                    return
                undo = listed(bond.connected_sites, lambda l: l.__setitem__(j, f))
                expect = ("test_lattice", "scan_sites", "scan_bonds")
        elif kind == "relative":
            occ = set(it.m.order)
            near = [y for _, _, y in t.nbr[a % N] if y in occ]
            if a % N not in occ or not near:
                return
            old = site.get_relative_index()
            new = type(old)(b % (4 * L + 1) - 2 * L, b // (4 * L + 1) % (4 * L + 1) - 2 * L)
            near = [lat.get_site_by_id(y).get_relative_index() for y in near]
            if any(d % L in (1, L - 1) for y in near for d in (new.x_coord() - y.x_coord(), new.y_coord() - y.y_coord())):
                return              # (not noticeable by comparison with the neighbours as the self-check makes it)
            lat.set_relative_index(a % N, new)
            undo = lambda: lat.set_relative_index(a % N, old)
            expect = ("test_lattice", "test_relative_index")
        elif kind == "cluster":
            if not full:
                return
            what = pool.get_sites if b % 2 else pool.get_bonds
            add = pool.add_sites if b % 2 else pool.add_bonds
            how = b // 2 % 3
            other = a % (2 * N)
            if how == 0:
                undo = listed(lambda: what(gid), lambda l: l.pop(a % len(l)))
            else:
                k = gid if how == 1 or other == gid else other
                old = list(what(k))
                add(k, [a % N])
                undo = (lambda: what(k).__setitem__(slice(None), old)) if list(what(k)) != old else None
            expect = ("test_clusters",)
        else:
            raise HarnessError(kind)
        if undo is None:
            return
        self.fault("damaged-" + kind)
        for c in expect:
            self.stats["oracle_checks"] += 1
            try:
                checks[c]()
            except (SimInterrupt, SimMemoryError, CapReached, Violation, HarnessError, Inconclusive):
                raise
            except Exception:
                continue
            self.bad("damage-unnoticed", f"{it.cls} L={L}, {len(it.m.order)} sites occupied: {c} passes although {kind} was damaged "
                                         f"(element {a}, {b})")
        undo()
        passes("repaired")

    # ------------------------------------------------------------------ C11: seeds
    def op_seeded(self, cls, L, seed, program, noise):
        """run `program` alone, then again amid noise; all results must be identical"""
        alone = self.run_program(cls, L, seed, program, None)
        seams.reseed_process(self.sc["entropy"] + "/again")
        noisy = self.run_program(cls, L, seed, program, noise)
        self.stats["oracle_checks"] += 1
        for i, (x, y) in enumerate(zip(alone, noisy)):
            for k in x:
                if x[k] != y[k]:
                    self.bad("seed-not-reproducible", f"{cls} L={L} seed={seed}: {k} after step {i} ({program[i]}) was "
                                                      f"{short(x[k])} alone and {short(y[k])} amid other activity")
        self.digest = hashlib.sha256(repr(alone).encode()).hexdigest()
        self.log("digest", self.digest)

    def run_program(self, cls, L, seed, program, noise):
        S = classes()["State"]
        rng = seams.REAL.Random(repr(noise)) if noise is not None else None
        others = []
        out = []

        def disturb():
            if rng is None or rng.random() > noise["rate"]:
                return
            x = rng.randrange(7)
            self.stats["switches"] += 1
            if x == 0:
                random.random()
            elif x == 1:
                random.seed(rng.randrange(1000))
            elif x == 2 or not others:
                c = rng.choice(["L0", "L1", "L2", "SP"])
                kw = {"length": rng.choice([3, 4, 5])}
                if rng.random() < 0.6:
                    kw["seed"] = rng.choice([seed, 0, 1, rng.randrange(10**6)])
                if len(others) > 3:
                    others.pop(0)
                others.append(self.call("other simulation", classes()[c], **kw))
            elif x == 3:
                self.call("other reset", rng.choice(others).reset)
            elif x == 4:
                o = rng.choice(others)
                self.call("other run", o.run_once)
            elif x == 5:
                o = rng.choice(others)
                for _ in range(rng.randrange(1, 6)):
                    self.call("other place", o.place_one_site)
            else:
                random.shuffle(list(range(5)))
        if noise is not None and noise.get("before"):
            for _ in range(noise["before"]):
                rr, noise_rate = noise["rate"], noise
                disturb()
        o = self.call("new", classes()[cls], length=L, seed=seed)
        for st in program:
            disturb()
            if st[0] == "reset":
                self.call("reset()", o.reset)
            elif st[0] == "run":
                orig = o.place_one_site

                def spy(orig=orig):
                    disturb()
                    return orig()
                if noise is not None:
                    o.place_one_site = spy
                self.call("run_once()", o.run_once)
                if noise is not None:
                    del o.place_one_site
                self.stats["realizations"] += 1
            elif st[0] == "place":
                for _ in range(st[1]):
                    disturb()
                    r = self.call("place_one_site()", o.place_one_site)
                    self.stats["steps"] += 1
                    if o.selection_flag == S.SUCESS:
                        self.call("detect_wrapping()", o.detect_wrapping)
                    if not r:
                        break
            elif st[0] == "custom":
                self.call("custom", o.set_custome_site_id_list, list(st[1]), True)
            ob = observables(o, cls)
            self.states.add(hash((L, cls, tuple(ob["gids"]))) & 0xffffffffffff)
            out.append(ob)
        return out

    # ------------------------------------------------------------------ threads
    def op_threads(self, bodies, sched):
        """each body is a list of ops on its own simulations, run in its own thread; preempted at repository lines"""
        self.sparse = True
        try:
            Baton(self, bodies, sched).run()
        finally:
            self.sparse = False
        for body in bodies:
            for key in {op[1] for op in body}:
                self.step_checks(self.inst[key])

    def op_alone(self):
        """every seeded simulation of this scenario once more, alone: the same results"""
        lone = {}

        def walk(op):
            n = op[0]
            if n == "threads":
                for b in op[1]:
                    for o in b:
                        walk(o)
            elif n == "interleave":
                for key in sorted({k for k, _ in op[1]}):
                    lone[key].append(["interleave", [[key + "~", w] for k, w in op[1] if k == key]])
            elif n == "new":
                lone[op[1]] = [["new", op[1] + "~"] + list(op[2:])]
            elif n == "custom":
                lone[op[1]].append(["custom", op[1] + "~"] + list(op[2:5]))
            elif n != "alone":
                lone[op[1]].append([n, op[1] + "~"] + list(op[2:]))
        for op in self.sc["ops"]:
            walk(op)
        for key, ops in lone.items():
            it = self.inst[key]
            if it.seed is None:
                continue
            seams.reseed_process(self.sc["entropy"] + "/alone/" + key)
            for op in ops:
                self.op(op)
            a, b = observables(it.obj, it.cls), observables(self.inst[key + "~"].obj, it.cls)
            self.stats["oracle_checks"] += 1
            for k in a:
                if a[k] != b[k]:
                    self.bad("differs-from-alone", f"{it.cls} L={it.L} seed={it.seed}: {k} is {short(a[k])} amid the other "
                                                   f"simulations of the process, {short(b[k])} alone")

    def op_interleave(self, slots):
        """slots: list of [key, what]; one step at a time of several simulations"""
        for key, what in slots:
            it = self.inst[key]
            if it.broken:
                continue
            if what == "reset" or it.done:
                if what == "reset":
                    self.op_reset(key)
                continue
            self.attempt(it)
        for key in {k for k, _ in slots}:
            it = self.inst[key]
            if not it.done and not it.broken:
                self.op_finish(key)


# ---------------------------------------------------------------------------------------------- utilities

def short(x):
    s = repr(x)
    return s if len(s) < 120 else s[:117] + "..."


def close(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) <= 1e-9
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b


def canonical(labels):
    """labels up to renaming"""
    seen, out = {}, []
    for g in labels:
        out.append(-1 if g < 0 else seen.setdefault(g, len(seen)))
    return out


def held(o):
    """number of objects and items reachable from a simulation and from the modules of the code under test"""
    import gc
    import types
    todo = [o]
    skip = (types.ModuleType, types.FrameType, types.CodeType, types.TracebackType, types.GetSetDescriptorType,
            types.MemberDescriptorType, types.BuiltinFunctionType)
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] in ("source_py", "run_py") and m is not None:
            todo += list(vars(m).values())
    seen, n = set(), 0
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, skip) or x is None or isinstance(x, (bool, int, float)):
            continue
        mod = x.__module__ if isinstance(x, (type, types.FunctionType)) else type(x).__module__
        if not isinstance(mod, str):
            mod = ""
        top = mod.split(".")[0]
        if isinstance(x, type) and top not in ("source_py", "run_py") or \
                isinstance(x, types.FunctionType) and top not in ("source_py", "run_py", "functools"):
            continue
        if top in ("dst", "random", "threading", "logging"):
            continue
        seen.add(id(x))
        n += 1
        if isinstance(x, (str, bytes, bytearray)):
            n += len(x)
        elif isinstance(x, (list, tuple, dict, set, frozenset)):
            n += len(x)
            todo += (list(x.keys()) + list(x.values())) if isinstance(x, dict) else list(x)
        elif isinstance(x, types.FunctionType):
            todo += [c.cell_contents for c in x.__closure__ or () if c != types.CellType()]
            todo += [x.__defaults__, x.__kwdefaults__, x.__dict__]
        elif isinstance(x, type):
            todo += list(vars(x).values())
        else:
            if hasattr(x, "nbytes"):
                n += int(x.nbytes)
            todo += gc.get_referents(x)
    return n


# queries that always have an answer
ANSWERS = {"get_pc", "get_site_count_wrapping_cluster_pc", "get_bond_count_wrapping_cluster_pc", "entropy", "occupation_prob",
           "order_param_wrapping", "order_param_largest_clstr", "get_entropy_array", "get_order_param_largest_array",
           "get_order_param_wrapping_array", "get_occupation_prob_array", "get_data_array", "get_site_id_sequence",
           "get_index_sequence", "get_shortest_path_p", "get_bonds", "get_sites",
           "scan_all_rows", "scan_all_cols"}


def observables(o, cls):
    lat = o.lattice_ref
    N, B = lat.length ** 2, 2 * lat.length ** 2
    d = {"gids": canonical([lat.get_site_gid_by_id(i) for i in range(N)]),
         "bond_gids": canonical([lat.get_bond_gid_by_id(i) for i in range(B)]),
         "relative": [(x.x_coord(), x.y_coord()) if lat.get_site_by_id(i).is_occupied() else None
                      for i in range(N) for x in (lat.get_site_by_id(i).get_relative_index(),)],
         "pc": o.get_pc(), "pc_sites": o.get_site_count_wrapping_cluster_pc(),
         "pc_bonds": o.get_bond_count_wrapping_cluster_pc(),
         "entropy": o.entropy(), "P_wrapping": o.order_param_wrapping(), "P_largest": o.order_param_largest_clstr(),
         "occupation_prob": o.occupation_prob(), "H_series": list(o.get_entropy_array()),
         "P_largest_series": list(o.get_order_param_largest_array()),
         "P_wrapping_series": list(o.get_order_param_wrapping_array()),
         "p_series": list(o.get_occupation_prob_array()),
         "ids": list(o.get_site_id_sequence()), "indices": [tuple(x) for x in o.get_index_sequence()]}
    pool = o.cluster_pool_ref
    d["clusters"] = sorted((sorted(pool.get_sites(g)), sorted(pool.get_bonds(g)))
                           for g in {lat.get_bond_gid_by_id(i) for i in range(B)} if g >= 0)
    if cls == "SP":
        d["p_star"] = o.get_shortest_path_p()
    if cls in BIASED:
        out, sys.stdout = sys.stdout, io.StringIO()
        try:
            o.occupied_summary()
            d["summary"] = sys.stdout.getvalue()
        finally:
            sys.stdout = out
    return d


VIEWS = ("gids", "relative", "index", "labels", "ids", "clusters", "sites", "bonds", "strings")
INSPECT_PLAIN = ["viewCluster", "get_signature", "get_site_id_sequence", "get_index_sequence", "get_pc",
                 "get_site_count_wrapping_cluster_pc", "get_bond_count_wrapping_cluster_pc",
                 "get_order_param_wrapping_array", "get_order_param_largest_array", "get_entropy_array",
                 "get_data_array", "get_occupation_prob_array", "occupation_prob", "entropy", "entropy_v1", "entropy_v2",
                 "largest_cluster", "order_param_largest_clstr", "order_param_wrapping", "test_lattice",
                 "occupied_summary", "get_shortest_path_p", "scan_all_rows", "scan_all_cols", "test_clusters"]
INSPECT_LATTICE = ["list_all_sites", "list_all_bonds", "scan_sites", "scan_bonds", "print_bonds", "print_sites",
                   "view_relative_index", "view_site_gids", "test_neighbor_count", "test_relative_index",
                   "get_site_id_list", "get_bond_id_list"]
INSPECT_SITE = ["get_site_neighbor_of_site", "get_sites_for_wrapping_test", "get_all_neighbor_sites",
                "get_neighbor_bonds", "get_row_col_from_id", "find_neighbor_bonds", "get_site_by_id",
                "get_site_gid_by_id"]
INSPECT_OTHER = ["viewLattice0", "viewLattice1", "viewLattice2", "viewLattice3", "viewLattice4", "viewLattice-1",
                 "neighbor_site", "connected_sites", "four_neighbors", "strings", "clusters", "bond_gids", "site_gids",
                 "unique_bonds", "line_scan", "relative_of_neighbor", "by_index", "distance", "detect"]


def refused(eng, o, cls, L, spec):
    """one request the simulation has to refuse: a custom sequence with a site outside the lattice, or that is none at all, or
    a placement when no site is left"""
    kind, (seq, shuffle) = spec
    if kind == "refuse-place":
        if o.occupation_prob() < 1 or cls in BIASED:        # (the biased variants may go on with failing attempts)
            return
        for _ in range(seq):
            if eng.call("place_one_site()", o.place_one_site):
                eng.bad("not-refused", f"{cls} L={L}: a placement on the full lattice is reported as successful")
        eng.stats["refused"] = eng.stats.get("refused", 0) + 1
        return
    if kind == "refuse-idx":
        arg, f = [tuple(x) if isinstance(x, list) else x for x in seq] if seq is not None else None, o.set_custome_site_index_list
    else:
        arg, f = list(seq) if seq is not None else None, o.set_custome_site_id_list
    before = None if arg is None else list(arg)
    try:
        f(arg, shuffle)
    except (SimInterrupt, SimMemoryError, CapReached, Violation, HarnessError, Inconclusive):
        raise
    except Exception:
        pass            # refused by an exception
    eng.stats["refused"] = eng.stats.get("refused", 0) + 1
    if arg != before:
        eng.bad("refusal-changed-state", f"{cls} L={L}: the caller's list {short(before)} was changed to {short(arg)}")


REQUESTS = {"refuse-ids": refused, "refuse-idx": refused, "refuse-place": refused}


def inspect(eng, o, cls, L, spec):
    """one inspection; spec = [name, site]"""
    name, s = spec
    lat = o.lattice_ref
    t = Torus(L)
    s %= t.N

    def run():
        if name in INSPECT_PLAIN:
            if name == "test_clusters" and (o.occupation_prob() < 1 or not o.order_param_wrapping() > 0):
                return
            f = getattr(o, name, None)
            if f is not None:
                f()
        elif name in INSPECT_LATTICE:
            f = getattr(lat, name, None)
            if f is not None:
                f()
        elif name in INSPECT_SITE:
            f = getattr(lat, name, None)
            if f is not None:
                f(s)
        elif name.startswith("viewLattice"):
            o.viewLattice(int(name[11:]))
        elif name == "neighbor_site":
            for i, b in enumerate(t.bonds[s]):
                if o.get_neighbor_site(s, b) != t.nbr[s][i][2]:
                    eng.bad("neighbour-query", f"neighbour of site {s} across bond {b} reported as {o.get_neighbor_site(s, b)}")
        elif name == "connected_sites":
            o.get_connected_sites(lat.get_site_by_id(s), lat.get_neighbor_bonds(s))
        elif name == "four_neighbors":
            f = getattr(o, "get_four_neighbor_sites", None)
            if f is not None:
                f(s)
        elif name == "strings":
            str(lat.get_site_by_id(s)), str(lat.get_bond_by_id(s)), str(o.cluster_pool_ref.get_cluster(s))
            str(lat.get_site_by_id(s).get_index()), str(lat.get_site_by_id(s).get_relative_index())
        elif name == "clusters":
            c = o.cluster_pool_ref.get_cluster(s)
            c.view(), c.is_empty(), c.get_bond_count(), c.get_site_count(), c.get_sites(), c.get_bonds()
        elif name == "bond_gids":
            o.get_bond_gids(lat.get_neighbor_bonds(s))
        elif name == "site_gids":
            o.get_site_gids([s, (s + 1) % t.N])
        elif name == "unique_bonds":
            o.uniqe_gid_bond_neighbors(lat.get_neighbor_bonds(s))
        elif name == "line_scan":
            if cls == "SP":
                o.scan_row_col_of_selected_site(lat.get_site_by_id(s).get_index())
        elif name == "relative_of_neighbor":
            o.get_relative_index(s, t.nbr[s][0][2])
        elif name == "by_index":
            lat.get_site_by_index(lat.get_site_by_id(s).get_index())
            lat.get_bond_by_index(s // L, s % L, s % 2)
            lat.calculate_id_from_index(lat.get_site_by_id(s).get_index())
        elif name == "distance":
            lat.distance_btn_sites(lat.get_site_by_id(s), lat.get_site_by_id((s + 1) % t.N))
        elif name == "detect":
            if o.occupation_prob() > 0 and o.order_param_wrapping() > 0:
                o.detect_wrapping()
        else:
            raise HarnessError(name)
    eng.call(f"inspection {name}", run)


class FailingStream(io.StringIO):
    """standard output of a terminal that went away, or of a pipe nobody reads any more, at the nth write"""
    def __init__(self, n, fired):
        super().__init__()
        self.left, self.fired = n, fired

    def write(self, text):
        self.left -= 1
        if self.left <= 0:
            self.fired.append(True)
            raise BrokenPipeError(32, "Broken pipe")
        return len(text)


class _Stop(BaseException):
    pass


def enumerate_step(eng, it):
    """distribution of the outcome of one attempt over all outcomes of the draws, from the current state"""
    g = seams.global_random()
    old = g.mode
    sc = seams.Script()
    g.script = sc
    law = {}
    paths = 0

    def bits(k):
        if k > 12:
            raise Inconclusive(f"a draw of {k} bits cannot be enumerated")
        return sc.draw(1 << k)

    def fraction():
        raise Inconclusive("a draw of a fraction cannot be enumerated")
    kept = random.random, random.getrandbits
    g.random, g.getrandbits = random.random, random.getrandbits = fraction, bits
    try:
        return enumerate_paths(eng, it, g, old, sc, law, paths)
    finally:
        del g.random, g.getrandbits
        random.random, random.getrandbits = kept


def enumerate_paths(eng, it, g, old, sc, law, paths):
    try:
        frozen = pickle.dumps(it.obj, -1)
    except Exception:
        frozen = None
    while True:
        c = pickle.loads(frozen) if frozen is not None else copy.deepcopy(it.obj)
        g.mode = "script"
        try:
            eng.call("place_one_site()", c.place_one_site)
        finally:
            g.mode = old
        paths += 1
        new = [i for i in range(it.t.N) if c.lattice_ref.get_site_by_id(i).is_occupied() and not it.m.occ[i]]
        if len(new) > 1:
            raise Inconclusive("several sites at once")
        k = new[0] if new else None
        law[k] = law.get(k, 0.0) + 1.0 / sc.weight()
        if paths > 40000:
            raise Inconclusive("too many outcomes of one step")
        if not sc.advance():
            break
    eng.stats["law_paths"] += paths
    eng.stats["oracle_checks"] += 1
    return law


def check_law(eng, it, law):
    """P(s) must be (1/R)(1 + W(s)/4) with R candidates, W(s) = number of (candidate, direction) pairs leading to s"""
    m, t = it.m, it.t
    empty = [s for s in range(t.N) if not m.occ[s]]
    if not empty:
        return
    occ = m.occ
    tot = sum(law.values())
    if abs(tot - 1) > 1e-9:
        raise HarnessError(f"law sums to {tot}")
    # ways: for every empty site the occupied candidates that lead to it, with multiplicity
    ways = {s: [] for s in empty}
    for x in range(t.N):
        if not occ[x]:
            continue
        for d in range(4):
            y = t.nbr[x][d][2]
            if not occ[y]:
                ways[y].append(x)
            elif it.cls == "L2":
                z = t.nbr[y][d][2]
                if not occ[z]:
                    ways[z].append(x)
    if set(law) - {None} - set(empty):
        eng.bad("law-support", f"{it.cls} can occupy {set(law) - set(empty)} although not empty")
    desc = f"{it.cls}, L={it.L}, occupied {sorted(s for s in range(t.N) if occ[s])}"
    failed = it.attempts - len(m.order)
    # number of candidates R: every empty site is a candidate; an occupied site may have been exhausted after >= 4 failures
    # an occupied site can be exhausted only if there were four failures since it was occupied
    can = [x for x in range(t.N) if occ[x] and failed - it.fail_at.get(x, 0) >= 4]
    rmax, rmin = t.N, max(len(empty), t.N - min(failed // 4, len(can)))
    can = set(can)
    ok_r = []
    for R in range(rmin, rmax + 1):
        good = True
        lost = 0        # weight of exhausted candidates needed to explain the law
        for s in empty:
            w = law.get(s, 0.0) * R * 4 - 4
            if abs(w - round(w)) > 1e-6 or round(w) > len(ways[s]) or round(w) < sum(1 for x in ways[s] if x not in can):
                good = False
                break
            lost += len(ways[s]) - round(w)
        if good and R == t.N and lost:
            good = False
        if good:
            ok_r.append(R)
    if not ok_r:
        s = min(empty, key=lambda z: law.get(z, 0.0) - (1 + len(ways[z]) / 4) / t.N)
        eng.bad("selection-law", f"{desc}: outcome probabilities {({k: round(v, 6) for k, v in law.items()})} are not those of "
                                 f"the rule (e.g. site {s} has {law.get(s, 0.0):.6f}; without exhausted candidates it is "
                                 f"{(1 + len(ways[s]) / 4) / t.N:.6f})")
    eng.probe("law_exhausted_candidates" if max(ok_r) < t.N or failed >= 4 else "law_no_exhaustion")


class Drift:
    """sums of (what happened - its probability) over the attempts of whole realizations of L1 or L2"""

    def __init__(self, t, cls):
        self.t, self.cls, self.n = t, cls, 0
        L, N = t.L, t.N
        self.line = []          # site -> 4 pairs (neighbour, next one in that direction)
        self.fixed = []         # site -> kinds that depend on its place only
        for s in range(N):
            r, c = divmod(s, L)
            self.line.append([(t.nbr[s][d][2], t.nbr[t.nbr[s][d][2]][d][2]) for d in range(4)])
            k = [("rows", r * 8 // L), ("columns", c * 8 // L), ("id mod 2", s % 2), ("id mod 3", s % 3),
                 ("row+column mod 2", (r + c) % 2), ("ids", s * 16 // N)]
            k += [("edge", e) for e, x in (("top", r == 0), ("bottom", r == L - 1), ("left", c == 0), ("right", c == L - 1),
                                           ("below top", r == 1), ("above bottom", r == L - 2), ("left but one", c == 1),
                                           ("right but one", c == L - 2)) if x]
            self.fixed.append(k)
        self.got, self.want, self.var = {}, {}, {}

    def start(self):
        self.occ = [False] * self.t.N
        self.ways = [0] * self.t.N
        self.mass = {}          # kind -> N * 4 * probability now
        for s in range(self.t.N):
            self.shift(s, 1)

    def kinds(self, s):
        w = self.ways[s]
        k = self.fixed[s]
        return k + [("ways", w)] + ([x[0:1] + (x[1], "beside occupied") for x in k if x[0] == "edge"] if w else [])

    def shift(self, s, sign):
        m, x = self.mass, sign * (4 + self.ways[s])
        for k in self.kinds(s):
            m[k] = m.get(k, 0) + x
        m["success"] = m.get("success", 0) + x

    def before(self):
        self.n += 1
        d = 4 * self.t.N
        for k, x in self.mass.items():
            if x:
                x /= d
                self.want[k] = self.want.get(k, 0.0) + x
                self.var[k] = self.var.get(k, 0.0) + x * (1 - x)

    def after(self, s):
        if s is None:
            return
        for k in self.kinds(s) + ["success"]:
            self.got[k] = self.got.get(k, 0) + 1
        self.shift(s, -1)
        self.occ[s] = True
        for pair in self.line[s]:
            for y in pair:
                if not self.occ[y]:
                    self.shift(y, -1)
                    self.ways[y] = sum(1 + (self.cls == "L2" and self.occ[b]) for a, b in self.line[y] if self.occ[a])
                    self.shift(y, 1)

    def verdict(self):
        for k in sorted(set(self.got) | set(self.want), key=str):
            g, w, v = self.got.get(k, 0), self.want.get(k, 0.0), max(0.0, self.var.get(k, 0.0))
            # 7 standard deviations; the last part allows for exhausted candidates, which the sums leave out
            if abs(g - w) > 7 * math.sqrt(v) + 5 + 0.003 * self.n:
                return f"{g} were of kind {k}, expected {w:.0f} +- {math.sqrt(v):.0f}"
        return None


def perm_law(eng, cls, L, samples, seed=None, custom=None, use=0):
    """Uniform order of the unbiased variants, separately for freshly built simulations (or those just given a custom sequence
    to be shuffled: custom = [form, sites]) and for the 1st .. 4th reset of one:
    counts of (site, position), of the pairs of sites at some pairs of positions, of the pairs of sites at one position of
    successive orders, and of descents.  Thresholds are 7 standard deviations and more: with the fixed seeds of a run the
    verdict is reproducible, and a correct shuffle fails with probability < 1e-8."""
    sites = list(range(L * L)) if custom is None else list(custom[1])
    if len(sites) > 36:
        return perm_law_large(eng, cls, L, samples, sites, seed, custom, use)
    number = {s: i for i, s in enumerate(sites)}
    N = len(sites)
    strata = 5
    pairs = [(0, 1), (0, N - 1), (N // 2, N - 1)]
    pos = [[[0] * N for _ in range(N)] for _ in range(strata)]
    joint = [[[0] * N for _ in range(N)] for _ in pairs]
    succ = [[[0] * N for _ in range(N)] for _ in (0, N - 1)]
    desc = [0] * (N - 1)
    for i in range(samples):
        o = eng.call("new", classes()[cls], length=L, **({} if seed is None else {"seed": seed + i}))
        before = None
        if custom is not None:
            give, arg = Engine.custom_call(o, L, custom[0], sites)
            eng.call("custom sequence", give, arg, True)
        for k in range(strata):
            if k:
                for _ in range(use):            # each order is used, in part or whole, before the next is drawn
                    if not eng.call("place_one_site()", o.place_one_site):
                        break
                    eng.call("detect_wrapping()", o.detect_wrapping)
                eng.call("reset()", o.reset)
            seq = list(eng.call("sequence", o.get_site_id_sequence))
            if sorted(seq) != sorted(sites):
                eng.bad("not-a-permutation", f"order {seq}")
            seq = [number[s] for s in seq]
            c = pos[k]
            for p, s in enumerate(seq):
                c[p][s] += 1
                if p and seq[p - 1] > s:
                    desc[p - 1] += 1
            for j, (p, q) in zip(joint, pairs):
                j[seq[p]][seq[q]] += 1
            if before is not None:
                for j, p in zip(succ, (0, N - 1)):
                    j[before[p]][seq[p]] += 1
            before = seq
    eng.stats["law_paths"] += samples * strata
    eng.stats["oracle_checks"] += 1
    names = ["freshly built" if custom is None else f"custom sequence {sites} just given (numbers are places in it)"] + [f"after reset {k}" for k in range(1, strata)]

    def test(count, n, prob, what):
        mean, sd = n * prob, math.sqrt(n * prob * (1 - prob))
        if abs(count - mean) > 7 * sd + 4 + 7 / max(sd, 0.5):
            eng.bad("order-not-uniform", f"{cls} L={L}: {what} in {count} of {n} orders, expected {mean:.0f} +- {sd:.0f}")
    for k in range(strata):
        for p in range(N):
            for s in range(N):
                test(pos[k][p][s], samples, 1 / N, f"{names[k]}, site {s} came at position {p}")
    for j, (p, q) in zip(joint, pairs):
        for s in range(N):
            for t in range(N):
                if s != t:
                    test(j[s][t], samples * strata, 1 / (N * (N - 1)), f"site {s} came at position {p} and {t} at position {q}")
    for j, p in zip(succ, (0, N - 1)):
        for s in range(N):
            for t in range(N):
                test(j[s][t], samples * (strata - 1), 1 / N ** 2,
                     f"site {s} and, after the next reset, site {t} came at position {p}")
    for p in range(N - 1):
        test(desc[p], samples * strata, 1 / 2, f"descents at position {p}")


def perm_law_large(eng, cls, L, samples, sites, seed, custom, use):
    """the same on larger lattices: counts of (class of sites, class of positions) for several divisions into classes, sites
    that keep their position from one order to a later one, and neighbours in one order that are neighbours in the next"""
    N = len(sites)
    number = {s: i for i, s in enumerate(sites)}
    K = 12
    divs = [("blocks", [x * K // N for x in range(N)]), ("residues", [x % K for x in range(N)]),
            ("halves and parity", [2 * (2 * x // N) + x % 2 for x in range(N)])]
    size = [[sum(1 for x in d if x == k) for k in range(max(d) + 1)] for _, d in divs]
    count = [[[[0] * len(size[j]) for _ in size[i]] for j in range(len(divs))] for i in range(len(divs))]
    keep, follow, before, orders = {1: 0, 2: 0}, 0, [], 0
    pairs = {1: 0, 2: 0}
    desc = 0
    for i in range(samples):
        o = eng.call("new", classes()[cls], length=L, **({} if seed is None else {"seed": seed + i}))
        if custom is not None:
            give, arg = Engine.custom_call(o, L, custom[0], sites)
            eng.call("custom sequence", give, arg, True)
        before = []
        for k in range(4):
            if k:
                for _ in range(use):
                    if not eng.call("place_one_site()", o.place_one_site):
                        break
                eng.call("reset()", o.reset)
            seq = list(eng.call("sequence", o.get_site_id_sequence))
            if len(seq) != N or set(seq) != set(sites):
                eng.bad("not-a-permutation", f"order {seq}")
            seq = [number[s] for s in seq]
            orders += 1
            for a, (_, da) in enumerate(divs):
                for b, (_, db) in enumerate(divs):
                    c = count[a][b]
                    for p, x in enumerate(seq):
                        c[da[x]][db[p]] += 1
            desc += sum(1 for x, y in zip(seq, seq[1:]) if x > y)
            for lag in (1, 2):
                if len(before) >= lag:
                    keep[lag] += sum(1 for x, y in zip(before[-lag], seq) if x == y)
                    pairs[lag] += 1
            nxt = set(zip(seq, seq[1:]))
            if before:
                follow += sum(1 for z in zip(before[-1], before[-1][1:]) if z in nxt)
            before.append(seq)
    eng.stats["law_paths"] += orders
    eng.stats["oracle_checks"] += 1
    who = f"{cls} L={L}" + ("" if custom is None else ", custom sequence to be shuffled") + f": in {orders} orders"
    for a, (na, _) in enumerate(divs):
        for b, (nb, _) in enumerate(divs):
            for x in range(len(size[a])):
                for p in range(len(size[b])):
                    mean = orders * size[a][x] * size[b][p] / N
                    if abs(count[a][b][x][p] - mean) > 7 * math.sqrt(mean) + 5:
                        eng.bad("order-not-uniform", f"{who}, {count[a][b][x][p]} sites of class {x} ({na}) came at positions of class "
                                                     f"{p} ({nb}), expected {mean:.0f} +- {math.sqrt(mean):.0f}")
    mean = orders * (N - 1) / 2
    if abs(desc - mean) > 7 * math.sqrt(orders * N / 12) + 5:
        eng.bad("order-not-uniform", f"{who}, {desc} descents, expected {mean:.0f} +- {math.sqrt(orders * N / 12):.0f}")
    for lag in (1, 2):
        if keep[lag] > pairs[lag] + 8 * math.sqrt(pairs[lag]) + 12:
            eng.bad("order-not-fresh", f"{who}, {keep[lag]} sites kept their position in the order {lag} later, expected {pairs[lag]}")
    if follow > pairs[1] + 8 * math.sqrt(pairs[1]) + 12:
        eng.bad("order-not-fresh", f"{who}, {follow} pairs of successive sites were successive in the next order too, expected {pairs[1]}")


# ------------------------------------------------------------------------------------------------ threads

class Baton:
    """Runs several bodies in real threads of which exactly one is ever runnable; switches are decided by the schedule."""

    def __init__(self, eng, bodies, sched):
        self.eng, self.bodies = eng, bodies
        self.rng = seams.REAL.Random(repr(sched))
        self.gap = sched["gap"]
        self.limit = eng.stats["switches"] + sched.get("limit", 1200)
        self.hot = sched.get("hot")         # [modulus, residue, probability]: extra switches within some of the functions
        self.locks = [threading.Semaphore(0) for _ in bodies]
        self.alive = set(range(len(bodies)))
        self.cur = None
        self.err = None
        self.main = threading.Semaphore(0)
        self.next_at = 0

    def run(self):
        ths = [seams.REAL.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.bodies))]
        for t in ths:
            t.start()
        self.next_at = self.draw_gap()
        LINES.start(self.on_line, None)
        self.cur = 0
        self.locks[0].release()
        self.main.acquire()
        LINES.stop()
        self.eng.stats["lines"] += LINES.n
        if self.err is not None:
            raise self.err

    def draw_gap(self):
        if self.eng.stats["switches"] > self.limit:      # keeps the cost of a run bounded
            return LINES.n + 1 + int(4000 * self.rng.expovariate(1.0))
        return LINES.n + 1 + int(self.gap * self.rng.expovariate(1.0))

    def on_line(self, n):
        if n >= self.next_at:
            self.next_at = self.draw_gap()
            self.switch()
        elif self.hot and zlib.crc32(LINES.last[1].encode()) % self.hot[0] == self.hot[1] and \
                self.eng.stats["switches"] < self.limit and self.rng.random() < self.hot[2]:
            self.switch()

    def switch(self):
        me = self.cur
        others = sorted(self.alive)
        nxt = self.rng.choice(others)
        if nxt == me:
            return
        self.eng.stats["switches"] += 1
        self.cur = nxt
        self.locks[nxt].release()
        self.locks[me].acquire()
        if self.err is not None:
            raise _Stop()

    def body(self, i):
        self.locks[i].acquire()
        try:
            if self.err is None:
                for op in self.bodies[i]:
                    self.eng.op(op)
        except _Stop:
            pass
        except BaseException as e:
            if self.err is None:
                self.err = e
        self.alive.discard(i)
        if self.alive:
            # after an error the others are released one by one to unwind
            nxt = sorted(self.alive)[0] if self.err is not None else self.rng.choice(sorted(self.alive))
            self.cur = nxt
            self.locks[nxt].release()
        else:
            self.main.release()
