"""Self test of the machinery (not of the repository): the reference model against brute force, and determinism."""
import json
import math
import os
import subprocess
import sys

from . import gen, model, run, seams


def model_vs_brute(n):
    done = 0
    for i in range(n):
        r = seams.REAL.Random(f"selftest/{i}")
        L = r.choice([3, 3, 4, 4, 5, 6, 7])
        m = model.Model(L)
        order = gen.order(r, L)[0] if r.random() < 0.7 else r.sample(range(L * L), L * L)
        for k, s in enumerate(order):
            m.place(s)
            if L > 5 and k % 3:
                continue
            comps = model.brute(L, m.order)
            N, B = m.t.N, m.t.B
            root = [m.find(x) for x in range(N)]
            assert len({root[x] for x in m.order}) == len(comps)
            sizes = []
            for sites, wraps, nb in comps:
                assert len({root[x] for x in sites}) == 1
                assert bool(m.wraps[root[sites[0]]]) == wraps
                sizes.append(nb)
            H = -sum(x / B * math.log(x / B) for x in sizes + [1] * (B - sum(sizes)))
            assert abs(m.entropy() - H) < 1e-9, (m.entropy(), H)
            assert m.largest == max(sizes)
            assert (m.wrap_at is not None) == any(c[1] for c in comps)
            done += 1
    return done


def traces(prop, env):
    code = ("import sys,json; from dst import run; prop=%r; run.prepare(prop); "
            "print(json.dumps([[t, r['status'], r['trace']] for t, _, r, _ in "
            "sorted(run.pool(((i, run.generate(prop, 1, i, 'quick')) for i in range(%d)), run.JOBS), key=lambda x: x[0])]))"
            % (prop, 12))
    e = dict(os.environ, **{"PYTHONHASHSEED": "0", **env})
    p = subprocess.run([sys.executable, "-c", code], cwd=run.VERIF, env=e, capture_output=True, text=True)
    return json.loads(p.stdout.strip().splitlines()[-1])


def main(args):
    bad = 0
    print("model against brute force:", model_vs_brute(120), "states compared")
    if "quick" in args:
        return 0
    for prop in run.QUICK:
        a = traces(prop, {"DST_JOBS": "8"})
        b = traces(prop, {"DST_JOBS": "3", "PYTHONHASHSEED": "7"})
        same = a == b
        bad += not same
        print(prop, "deterministic" if same else "NOT DETERMINISTIC " + str([x for x, y in zip(a, b) if x != y][:2]))
    return 1 if bad else 0
