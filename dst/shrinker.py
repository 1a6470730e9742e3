"""Smaller variants of a scenario, most aggressive first. Works on the JSON structure only."""
import copy
import json


def size(sc):
    return len(json.dumps(sc))


def _cuts(n):
    """index ranges to delete, large first"""
    k = n
    while k >= 1:
        for i in range(0, n, k):
            if not (i == 0 and k >= n):
                yield i, min(n, i + k)
            elif n == 1:
                yield 0, 1
        k //= 2


def _lists(sc):
    """paths of the lists whose elements may be deleted"""
    out = []
    if "ops" in sc:
        out.append(("ops",))
        for i, op in enumerate(sc["ops"]):
            if op[0] == "custom":
                out.append(("ops", i, 3))
            elif op[0] == "fresh_compare":
                out.append(("ops", i, 2))
            elif op[0] == "twin":
                out.append(("ops", i, 4))
                for j, st in enumerate(op[4]):
                    if st[0] == "look":
                        out.append(("ops", i, 4, j, 1))
                    elif st[0] == "run":
                        out += [("ops", i, 4, j, 1), ("ops", i, 4, j, 2)]
            elif op[0] == "seeded":
                out.append(("ops", i, 4))
            elif op[0] == "threads":
                for j in range(len(op[1])):
                    out.append(("ops", i, 1, j))
            elif op[0] == "interleave":
                out.append(("ops", i, 1))
    for k in ("phases", "faults", "plan"):
        if k in sc:
            out.append((k,))
    for i, ph in enumerate(sc.get("phases", [])):
        for k in ("jobs", "faults", "events"):
            if k in ph:
                out.append(("phases", i, k))
    return out


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _numbers(sc):
    out = []
    for i, op in enumerate(sc.get("ops", [])):
        if op[0] == "place":
            out.append((("ops", i, 2), 1))
        elif op[0] == "intr":
            if isinstance(op[3], dict):
                if "end" in op[3]:
                    out.append((("ops", i, 3, "end"), 0))
            else:
                out.append((("ops", i, 3), 1))
            if op[2][0] == "place":
                out.append((("ops", i, 2, 2), 1))
    for i, ph in enumerate(sc.get("phases", [])):
        for j, job in enumerate(ph.get("jobs", [])):
            for k, lo in (("length", 3), ("En", 1), ("thread", 1)):
                if isinstance(job.get(k), int):
                    out.append((("phases", i, "jobs", j, k), lo))
    return out


def candidates(sc):
    for key, simple in (("rng", {"mode": "fair"}), ("clock", {"mode": "tick"})):
        if key in sc and sc[key] != simple:
            c = copy.deepcopy(sc)
            c[key] = simple
            yield c
    for path in _lists(sc):
        lst = _get(sc, path)
        n = len(lst)
        lo_keep = 1 if path[-1] == 3 or (path[0] == "ops" and len(path) == 3 and path[-1] == 2) or path == ("ops",) else 0
        for a, b in list(_cuts(n))[:60]:
            if n - (b - a) < lo_keep:
                continue
            c = copy.deepcopy(sc)
            del _get(c, path)[a:b]
            yield c
    for path, lo in _numbers(sc):
        v = _get(sc, path)
        for w in sorted({lo, (v + lo) // 2, v - 1}):
            if lo <= w < v:
                c = copy.deepcopy(sc)
                _get(c, path[:-1])[path[-1]] = w
                yield c
    for i, op in enumerate(sc.get("ops", [])):
        if op[0] == "new" and op[3] > 3 and not any(o[0] in ("custom", "fresh_compare") for o in sc["ops"]):
            for L in sorted({3, (op[3] + 3) // 2, op[3] - 1}):
                if 3 <= L < op[3]:
                    c = copy.deepcopy(sc)
                    c["ops"][i][3] = L
                    yield c
        if op[0] == "intr":
            c = copy.deepcopy(sc)
            del c["ops"][i]
            yield c
