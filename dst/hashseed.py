"""Several interpreters with different hash seeds (and different OS entropy) run the same seeded programs."""
import hashlib
import json
import os
import subprocess
import sys

from . import seams

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_fork_exec_popen = subprocess.Popen


def scenario(seed, i):
    from . import gen
    r = seams.REAL.Random(f"hash/{seed}/{i}")
    items = []
    for k in range(14):
        sc = gen.gen_C11(r, k, "quick")
        op = next((o for o in sc["ops"] if o[0] == "seeded"), None)
        if op:
            items.append(op[1:5])
    return {"world": "hashseed", "prop": "C11", "entropy": f"{seed}/h{i}", "items": items,
            "hashseeds": ["0", "1", str(r.randrange(2 ** 32))]}


class World:
    def __init__(self, sc):
        self.sc = sc
        self.stats = {"oracle_checks": 0, "realizations": 0, "interpreters": 0, "steps": 0, "probes": {}}
        self.states = set()
        self.trace = hashlib.sha256()

    def execute(self):
        from .engine import Violation
        outs = []
        for n, h in enumerate(self.sc["hashseeds"]):
            env = dict(os.environ, PYTHONHASHSEED=h, DST_REPO=seams.REPO, PYTHONDONTWRITEBYTECODE="1",
                       DST_PYC=sys.pycache_prefix or "")
            p = _fork_exec_popen([sys.executable, "-m", "dst.hashseed"], cwd=VERIF, env=env, stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=False)
            out, err = p.communicate(json.dumps({"items": self.sc["items"],
                                                 "entropy": f"{self.sc['entropy']}/{n}"}).encode())
            if p.returncode != 0:
                raise seams.HarnessError(f"interpreter with hash seed {h} failed: {err.decode()[-800:]}")
            outs.append(json.loads(out))
            self.stats["interpreters"] += 1
        for k, item in enumerate(self.sc["items"]):
            self.stats["oracle_checks"] += 1
            a = outs[0][k]
            self.trace.update(repr(a).encode())
            self.states.add(int(hashlib.sha256(repr(a).encode()).hexdigest()[:12], 16))
            for h, o in zip(self.sc["hashseeds"][1:], outs[1:]):
                if o[k] != a:
                    names = [(i, n) for i, (x, y) in enumerate(zip(a, o[k])) for n in x if y.get(n) != x[n]]
                    raise Violation("C11", "hash-seed-dependent", f"{item[0]} L={item[1]} seed={item[2]} program={item[3]}: "
                                    f"(step, result) {names[:4]} differ between hash seed {self.sc['hashseeds'][0]} and {h}")
        self.stats["steps"] += 5


def child():
    d = json.load(sys.stdin)
    if os.environ.get("DST_PYC"):
        sys.pycache_prefix = os.environ["DST_PYC"]
        sys.dont_write_bytecode = False
    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    seams.install()
    from . import engine
    engine.classes()
    seams.reseed_process(d["entropy"])
    e = engine.Engine({"world": "engine", "prop": "C11", "entropy": d["entropy"], "ops": []})
    res = []
    for cls, L, seed, program in d["items"]:
        try:
            r = e.run_program(cls, L, seed, program, None)
            res.append([{k: hashlib.sha256(repr(v).encode()).hexdigest()[:16] for k, v in ob.items()} for ob in r])
        except engine.Violation as v:
            res.append([{"error": str(v)}])
    json.dump(res, out)
    out.flush()


if __name__ == "__main__":
    child()
