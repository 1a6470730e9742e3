"""Scenario generators of the engine world: a scenario is a pure function of (property, seed, index, tier)."""
from .seams import REAL, ADV_MODES

ENGINE_PROPS = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C24", "C25", "C27", "C28", "C29", "C31")
UNBIASED = ("L0", "L0", "Base", "SP")
ALL = ("L0", "L0", "Base", "SP", "L1", "L1", "L2", "L2")


def pick_length(r, lo=3, big=True, cap=64):
    x = r.random()
    if x < 0.55:
        L = r.randint(lo, 6)
    elif x < 0.84 or not big:
        L = r.randint(6, 10)
    elif x < 0.97:
        L = r.randint(10, 20)
    elif x < 0.994:
        L = r.choice([24, 27, 32, 33, 40])
    else:
        L = r.choice([48, 50, 64])
    return max(lo, min(L, cap))


# ----------------------------------------------------------------------------------------- occupation orders

def eden(r, L, starts):
    N = L * L
    seen, frontier, out = set(), list(starts), []
    while frontier:
        i = r.randrange(len(frontier))
        frontier[i], frontier[-1] = frontier[-1], frontier[i]
        s = frontier.pop()
        if s in seen:
            continue
        seen.add(s)
        out.append(s)
        rr, cc = divmod(s, L)
        frontier += [((rr + a) % L) * L + (cc + b) % L for a, b in ((0, 1), (1, 0), (0, -1), (-1, 0))]
    return out + [s for s in range(N) if s not in seen]


def winding_path(r, L, axis=None, slope=None):
    """sites of a path that winds once around the torus, not straight if slope is nonzero"""
    row, col = r.randrange(L), r.randrange(L)
    axis = r.random() < 0.5 if axis is None else axis
    path, a, b = [], row, col
    drift = 0
    for k in range(L):
        path.append((a, b))
        if k == L - 1:
            break
        if slope and r.random() < slope:
            d = r.choice((1, -1))
            for _ in range(r.randint(1, 2)):
                a = (a + d) % L
                drift += d
                path.append((a, b))
        b = (b + 1) % L
    # close: return to the start row in the last column
    while drift % L:
        d = -1 if drift > 0 else 1
        a = (a + d) % L
        drift += d
        path.append((a, b))
    if axis:
        path = [(y, x) for x, y in path]
    out, seen = [], set()
    for x, y in path:
        s = x * L + y
        if s not in seen:
            seen.add(s)
            out.append(s)
    return out


def rest(r, L, used, mode=None):
    u = set(used)
    z = [s for s in range(L * L) if s not in u]
    if (mode or r.choice("srr")) == "r":
        r.shuffle(z)
    return z


def order(r, L):
    """a full occupation order of the lattice and its kind"""
    N = L * L
    k = r.choice(["perm", "perm", "perm", "rows", "cols", "snake", "spiral", "diag", "rev", "checker", "eden", "edens", "bands",
                  "loop", "loopseam", "seam", "comb", "quad", "twobands", "junction", "stairs", "walk", "lateloop", "coil", "coil"])
    idx = lambda a, b: (a % L) * L + b % L
    if k == "perm":
        o = list(range(N))
        r.shuffle(o)
    elif k == "rows":
        o = list(range(N))
        s = r.randrange(N)
        o = o[s:] + o[:s]
    elif k == "cols":
        o = [idx(a, b) for b in range(L) for a in range(L)]
    elif k == "snake":
        o = [idx(a, b if a % 2 == 0 else L - 1 - b) for a in range(L) for b in range(L)]
        if r.random() < 0.5:
            o.reverse()
    elif k == "spiral":
        o, seen, a, b, d = [], set(), 0, 0, 0
        for _ in range(N):
            o.append(idx(a, b))
            seen.add((a, b))
            da, db = ((0, 1), (1, 0), (0, -1), (-1, 0))[d]
            if not (0 <= a + da < L and 0 <= b + db < L) or (a + da, b + db) in seen:
                d = (d + 1) % 4
                da, db = ((0, 1), (1, 0), (0, -1), (-1, 0))[d]
            a, b = a + da, b + db
        if r.random() < 0.4:
            o.reverse()
        s0, s1 = r.randrange(L), r.randrange(L)
        o = [idx(s // L + s0, s % L + s1) for s in o]
    elif k == "diag":
        o = sorted(range(N), key=lambda s: ((s // L + s % L) % L, s))
    elif k == "rev":
        o = list(range(N))[::-1]
    elif k == "checker":
        p = r.randrange(2)
        e = [s for s in range(N) if (s // L + s % L) % 2 == p]
        f = [s for s in range(N) if (s // L + s % L) % 2 != p]
        r.shuffle(e)
        r.shuffle(f)
        o = e + f
    elif k == "eden":
        o = eden(r, L, [r.randrange(N)])
    elif k == "edens":
        m = r.randint(2, 5)
        o = eden(r, L, [r.randrange(N) for _ in range(m)])
    elif k == "bands":
        rows = list(range(L))
        r.shuffle(rows)
        o = [idx(a, b) for a in rows for b in r.sample(range(L), L)]
        if r.random() < 0.5:
            o = [idx(s % L, s // L) for s in o]
    elif k in ("loop", "loopseam", "lateloop"):
        p = winding_path(r, L, slope=r.choice([0, 0.2, 0.5]))
        if k == "loopseam":
            hole = p.pop(r.randrange(len(p)))
            r.shuffle(p)
            extra = [s for s in rest(r, L, p + [hole], "r")][:r.randint(0, 4)]
            o = p + extra + [hole]
        elif k == "lateloop":
            pre = eden(r, L, [r.randrange(N)])[:N // 3]
            pp = [s for s in p if s not in set(pre)]
            r.shuffle(pp)
            o = pre + pp
        else:
            r.shuffle(p)
            o = p
        o = o + rest(r, L, o)
    elif k == "seam":
        a0, b0 = r.randrange(L), r.randrange(L)
        inner = [s for s in range(N) if s // L != a0 and s % L != b0]
        seam = [s for s in range(N) if s // L == a0 or s % L == b0]
        if r.random() < 0.6:
            r.shuffle(inner)
        r.shuffle(seam)
        o = inner + seam
    elif k == "comb":
        spine = r.randrange(L)
        teeth = [idx(a, b) for b in range(0, L - 1, 2) for a in range(L) if a != spine]
        r.shuffle(teeth)
        o = teeth + [idx(spine, b) for b in r.sample(range(L), L)]
        o = list(dict.fromkeys(o))
        o += rest(r, L, o)
    elif k == "quad":
        h = L // 2
        qs = [[idx(a, b) for a in A for b in B] for A in (range(h), range(h, L)) for B in (range(h), range(h, L))]
        r.shuffle(qs)
        o = []
        for q in qs:
            if r.random() < 0.5:
                r.shuffle(q)
            o += q
    elif k == "twobands":
        o = two_bands(r, L)
    elif k == "junction":
        c = r.randrange(N)
        a, b = divmod(c, L)
        arms = []
        for da, db in ((0, 1), (1, 0), (0, -1), (-1, 0)):
            m = r.randint(1, max(1, (L - 1) // 2))
            arms.append([idx(a + da * i, b + db * i) for i in range(m, 0, -1)])
        r.shuffle(arms)
        o = list(dict.fromkeys([s for arm in arms for s in arm] + [c]))
        o += rest(r, L, o)
    elif k == "stairs":
        a, b, o = r.randrange(L), r.randrange(L), []
        for i in range(2 * L):
            o.append(idx(a, b))
            if i % 2:
                a += 1
            else:
                b += 1
        if r.random() < 0.5:
            r.shuffle(o)
        o = list(dict.fromkeys(o))
        o += rest(r, L, o)
    elif k == "walk":
        a, b, o = r.randrange(L), r.randrange(L), []
        for i in range(3 * N):
            o.append(idx(a, b))
            da, db = r.choice(((0, 1), (1, 0), (0, -1), (-1, 0)))
            a, b = a + da, b + db
        o = list(dict.fromkeys(o))
        o += rest(r, L, o)
    elif k == "coil":
        o = coil(r, L)
        x = r.random()
        if x < 0.4:                 # the pieces first, the sites that join them later
            holes = r.sample(o, min(len(o), r.choice([1, 1, 2, 4])))
            o = [s for s in o if s not in holes]
            if r.random() < 0.4:
                r.shuffle(o)
            o += holes
        elif x < 0.6:
            r.shuffle(o)
        elif x < 0.8:
            o.reverse()
        o += rest(r, L, o, "r")
    assert sorted(o) == list(range(N)), (k, L)
    return o, k


def coil(r, L):
    """a long path around the torus, several times, that touches itself nowhere: a cluster longer than L that does not wind"""
    N = L * L
    s = r.randrange(N)
    path, used = [s], {s}
    ahead = r.choice([1.0, 1.0, 0.9, 0.7])
    turn = r.choice((1, -1))
    steps = ((0, 1), (1, 0), (0, -1), (-1, 0))
    d = main = r.randrange(4)
    nb = lambda s: [((s // L + a) % L) * L + (s % L + b) % L for a, b in steps]
    while True:
        free = [q for q in range(4) if nb(s)[q] not in used and sum(1 for x in nb(nb(s)[q]) if x in used) == 1]
        if not free:
            return path
        pref = [main, (main + turn) % 4] if main in free else [(main + turn) % 4, d]
        d = next((q for q in pref if q in free), None) if r.random() < ahead else r.choice(free)
        if d is None:
            d = r.choice(free)
        s = nb(s)[d]
        used.add(s)
        path.append(s)


def two_bands(r, L):
    """A winding but nowhere straight cluster first; a separate full row (or column) next; a connecting site later."""
    if L < 5:
        o = list(range(L * L))
        r.shuffle(o)
        return o
    row = r.randrange(L)
    # winding path confined to rows row+2 .. row-2, not straight
    lo, hi = row + 2, row + L - 2
    a = r.randint(lo, hi)
    path, step_at = [], r.randrange(1, L - 1)
    a2 = a + 1 if a < hi else a - 1
    if a2 < lo:
        a2 = a
    for b in range(L):
        path.append((a if b < step_at else a2, b))
        if b == step_at - 1:
            path.append((a2, b))
    path.append((a2, L - 1))
    path.append((a, L - 1))
    # leave one hole in each straight candidate by construction: rows a and a2 are both incomplete unless a == a2
    p = list(dict.fromkeys((x % L) * L + y for x, y in path))
    full = [row * L + b for b in range(L)]
    join_b = r.randrange(L)
    lo_j, hi_j = sorted((row, a))
    link = [((x % L) * L + join_b) for x in range(row + 1, a)]
    link = [s for s in link if s not in p and s not in full]
    head = p[:]
    if r.random() < 0.7:
        r.shuffle(head)
    f = full[:]
    r.shuffle(f)
    if r.random() < 0.3:            # build the full row first, or interleaved
        seq = f + head
    elif r.random() < 0.3:
        seq = head + f
        t = seq[:]
        r.shuffle(t)
        seq = t
    else:
        seq = head + f
    r.shuffle(link)
    seq = list(dict.fromkeys(seq + link))
    tail = rest(r, L, seq, "r")
    # now and then a few unrelated sites before the link
    k = r.choice([0, 0, 1, 3])
    if k and link:
        cut = len(seq) - len(link)
        seq = seq[:cut] + tail[:k] + seq[cut:]
        tail = tail[k:]
    o = seq + tail
    if r.random() < 0.5:
        o = [(s % L) * L + s // L for s in o]
    d0, d1 = r.randrange(L), r.randrange(L)
    return [((s // L + d0) % L) * L + (s % L + d1) % L for s in o]


def custom_seq(r, L, partial=0.3):
    o, k = order(r, L)
    if r.random() < partial:
        o = o[:r.randint(1, len(o))]
    return o


def chunks(r, key, N):
    """placement in pieces"""
    out, left = [], N
    for _ in range(r.randint(0, 3)):
        out.append(["place", key, r.randint(1, max(1, N // 2))])
    return out


def rng_mode(r, p_adv=0.15):
    if r.random() < p_adv:
        return {"mode": r.choice(ADV_MODES), "seed": r.randrange(1 << 30)}
    return {"mode": "fair"}


def maybe_seed(r, p=0.3):
    return r.choice([0, 1, r.randrange(10 ** 6), -r.randrange(1, 99), 2 ** 40 + r.randrange(99)]) if r.random() < p else None


def realization(r, key, cls, L, run_p=0.45, partial=0.15, custom_p=0.55):
    """ops of one (possibly custom, possibly partial) realization starting from a fresh or reset instance"""
    ops = []
    if cls not in ("L1", "L2") and r.random() < custom_p:
        ops.append(["custom", key, r.choice(["id", "id", "idx", "idxlist"]), custom_seq(r, L), r.random() < 0.12])
    x = r.random()
    if x < run_p:
        if r.random() < 0.2:
            ops += chunks(r, key, L * L)
        ops.append(["run", key])
    elif x < run_p + partial:
        ops += chunks(r, key, L * L) or [["place", key, r.randint(1, L * L)]]
    else:
        ops += chunks(r, key, L * L)
        ops.append(["finish", key])
    return ops


def history(r, classes=ALL, big=True, n_inst=None, L=None, adv=0.15, run_p=0.45):
    ops, keys = [], []
    for i in range(n_inst or r.choice([1, 1, 1, 2])):
        key, cls = f"s{i}", r.choice(classes)
        LL = L or pick_length(r, big=big and not i)
        keys.append((key, cls, LL))
        ops.append(["new", key, cls, LL, maybe_seed(r)])
    lives = []
    for key, cls, LL in keys:
        life = []
        for j in range(r.choice([1, 2, 2, 3]) if LL <= 12 else r.choice([1, 1, 2])):
            if j or r.random() < 0.3:
                life.append(["reset", key])
            life += realization(r, key, cls, LL, run_p=run_p)
        lives.append(life)
    if len(lives) > 1 and r.random() < 0.5:
        while any(lives):       # by turns
            ops.append(r.choice([x for x in lives if x]).pop(0))
    for life in lives:
        ops += life
    return ops


def pair(r, classes=ALL, runs=False):
    """two larger simulations of different length at the same time, by turns"""
    Ls = r.sample([14, 16, 17, 20, 22, 24], 2)
    cl = [r.choice(classes) for _ in Ls]
    ops = [["new", f"s{i}", cl[i], L, maybe_seed(r)] for i, L in enumerate(Ls)]
    if runs:        # whole runs by turns, with resets and custom sequences between those of the other
        for _ in range(r.choice([3, 4, 6])):
            i = r.choice([0, 1])
            if cl[i] == "SP" or r.random() < 0.8:     # the shortest path simulation stops at p*: only a reset may follow
                ops.append(["reset", f"s{i}"])
            if cl[i] not in ("L1", "L2") and r.random() < 0.4:
                ops.append(["custom", f"s{i}", r.choice(["id", "idx"]), custom_seq(r, Ls[i]), False])
            if r.random() < 0.7:
                ops.append(["run", f"s{i}"])
        for i in (0, 1):
            ops += [["reset", f"s{i}"]]
        return {"ops": ops + [["run", "s1"], ["run", "s0"]], "rng": {"mode": "fair"}}
    left = [L * L for L in Ls]
    while any(left):
        i = r.choice([i for i in (0, 1) if left[i] > 0])
        k = min(left[i], r.choice([1, 20, 60, 150, 400]))
        left[i] -= k
        ops.append(["place", f"s{i}", k])
    ops += [["finish", "s0"], ["finish", "s1"]]
    return {"ops": ops, "rng": {"mode": "fair"}}


def scenario(prop, seed, i, tier="quick"):
    r = REAL.Random(f"{prop}/{seed}/{i}")
    sc = {"world": "engine", "prop": prop, "entropy": f"{seed}/{i}", "rng": {"mode": "fair"}}
    g = globals()["gen_" + prop]
    sc.update(g(r, i, tier))
    return sc


def many(r, n, law=False, classes=ALL, place=0.1):
    """a long life: many realizations of one small simulation"""
    cls = r.choice(("L1", "L2") if law else classes)
    L = 3 if law else r.choice([3, 3, 3, 4])
    ops = [["new", "s", cls, L, None if law else maybe_seed(r)]]
    for _ in range(n):
        ops.append(["reset", "s"])
        x = r.random()
        if law and (L == 3 or x < 0.3):
            for _ in range(1 if x < 0.5 else 2):
                ops += [["place", "s", r.randint(1, L * L)], ["law", "s"]]
            if x < 0.85:
                ops.append(["finish", "s"])
            continue
        if x < place:
            ops.append(["place", "s", r.randint(1, L * L)])
        elif x < 0.2 and cls not in ("L1", "L2"):
            ops += [["custom", "s", "id", custom_seq(r, L, 0.3), False], ["run", "s"]]
        else:
            ops.append(["run", "s"])
    return ops


LIFE = (70, 110, 150, 270)


def large(r, classes=ALL):
    """one realization on a large lattice: ids, labels and counts beyond 2^14, 2^15, 2^16"""
    cls = r.choice(classes)
    L = r.choice([91, 100, 129, 129, 131, 150, 182, 200, 257])
    ops = [["new", "s", cls, L, maybe_seed(r)]]
    if r.random() < 0.3:
        ops += [["place", "s", r.randint(1, L * L // 2)], ["reset", "s"]]
    if cls not in ("L1", "L2") and r.random() < 0.4:
        ops.append(["custom_kind", "s", r.randrange(10 ** 9)])
    ops.append([r.choice(["run", "finish"]), "s"])
    return {"ops": ops, "rng": {"mode": "fair"}}


def large_at(i, every=300):
    return i % every == every - 17


def _mix(r, i, tier):
    if large_at(i):
        return large(r)
    if r.random() < 0.008:
        return {"ops": many(r, r.choice(LIFE)), "rng": {"mode": "fair"}}
    if i % 40 == 21:
        return pair(r)
    return {"ops": history(r), "rng": rng_mode(r)}


gen_C01 = gen_C02 = gen_C04 = gen_C05 = gen_C06 = _mix


def gen_C03(r, i, tier):
    if large_at(i, 400):
        return large(r)
    if r.random() < 0.008:
        return {"ops": many(r, r.choice(LIFE)), "rng": {"mode": "fair"}}
    if i % 60 == 21:
        return pair(r)
    return {"ops": history(r, run_p=0.3), "rng": rng_mode(r)}


def gen_C07(r, i, tier):
    if large_at(i, 700):
        return large(r)
    x = r.random()
    if x < 0.005:
        return {"ops": many(r, r.choice(LIFE))}
    if x < 0.5:
        return {"ops": history(r, classes=("L1", "L1", "L2", "L2", "L0", "SP"), big=r.random() < 0.3),
                "rng": {"mode": r.choice(ADV_MODES), "seed": r.randrange(1 << 30)}}
    return {"ops": history(r), "rng": rng_mode(r, 0.3)}


def gen_C08(r, i, tier):
    if i % 60 == 30:            # larger lattices: sums over whole realizations
        L = r.choice([7, 8, 10, 12, 16, 17, 20, 24, 32, 33, 40, 48, 72, 80, 100])
        ops = [["new", "s", r.choice(["L1", "L2"]), L, None]]
        if r.random() < 0.3:
            ops += [["place", "s", r.randint(1, L)], ["reset", "s"]]
        return {"ops": ops + [["drift", "s", max(1, min(100, 9000 // L ** 2)), r.choice([0.5, 0.7])]]}
    if i % 60 == 54:
        L = r.choice([7, 8, 10, 12, 16, 17, 20, 24, 32, 33, 40])
        op = ["perm_law", None, r.choice(["L0", "L0", "SP", "Base"]), L, max(12, min(300, 40000 // L ** 2)),
              None if r.random() < 0.75 else r.randrange(10 ** 9), None, 0]
        x = r.random()
        if x < 0.3:
            sites = list(range(L * L))
            r.shuffle(sites)
            op[6] = [r.choice(["id", "idx", "idxl"]), sites[:r.randint(40, L * L)]]
        elif x < 0.75:
            op[7] = r.choice([r.randint(1, L), L * L // 2, L * L])
            op[4] = max(4, min(op[4], 6000 // op[7]))
        return {"ops": [op]}
    if r.random() < 0.03:       # one complete look at the law on a lattice of middling size
        L = r.choice([7, 8, 9, 10, 12, 14])
        return {"ops": [["new", "s", r.choice(["L1", "L2"]), L, None], ["place", "s", r.randint(L, int(L * L * 1.2))], ["law", "s"]]}
    if i % 12 == 0:
        cls = r.choice(["L0", "L0", "SP", "Base"])
        op = ["perm_law", None, cls, r.choice([3, 3, 3, 4, 5]), 2500 if tier == "quick" else 8000,
              None if r.random() < 0.75 else r.randrange(10 ** 9)]
        if i % 48 == 12:        # a custom sequence to be shuffled
            L = op[3]
            sites = list(range(L * L))
            if r.random() < 0.6:
                r.shuffle(sites)
                sites = sites[:r.randint(3, L * L)]
            op.append([r.choice(["id", "idx", "idxl"]), sites])
        elif r.random() < 0.4:  # some or all sites are placed between the resets
            use = r.randint(1, op[3] ** 2)
            op[4] = min(op[4], 2500 * 4 // use + 700)
            op += [None, use]
        return {"ops": [op]}
    if r.random() < 0.02:
        return {"ops": many(r, r.choice(LIFE), True)}
    cls = r.choice(["L1", "L2", "L2"])
    L = r.choice([3, 3, 4, 4, 4, 5, 5, 6])
    ops = [["new", "s", cls, L, None]]
    if r.random() < 0.4:
        ops += [["place", "s", r.randint(1, L * L * 2)], ["reset", "s"]]
    N = L * L
    ops.append(["law", "s"])
    style = r.random()
    n = 0
    while n < 3 * N and len(ops) < 40:
        k = r.choice([1, 1, 2, 3, N // 2]) if style < 0.6 else 1
        ops += [["place", "s", k], ["law", "s"]]
        n += k
    return {"ops": ops, "rng": rng_mode(r, 0.5)}


def gen_C09(r, i, tier):
    if large_at(i, 650):
        sc = large(r)
        key, L = "s", sc["ops"][0][3]
        if r.random() < 0.5 and sc["ops"][0][2] not in ("L1", "L2"):
            end = [["fresh_compare", key, custom_seq(r, L, 0.3)]]
        else:
            end = [[r.choice(["run", "finish"]), key]]
        sc["ops"] = sc["ops"][:-1] + [["place", key, r.randint(L, L * L)], ["reset", key]] + end
        return sc
    if r.random() < 0.03:
        return {"ops": many(r, r.choice(LIFE), r.random() < 0.6)}
    cls = r.choice(ALL)
    L = pick_length(r, cap=10 if r.random() < 0.9 else 16)
    N = L * L
    ops = [["new", "s", cls, L, maybe_seed(r, 0.25)]]
    for _ in range(r.choice([1, 1, 2, 3])):
        # dirty the instance
        if cls not in ("L1", "L2") and r.random() < 0.4:
            ops.append(["custom", "s", r.choice(["id", "idx"]), custom_seq(r, L, 0.4), r.random() < 0.2])
        x = r.random()
        exc = r.choice(["kbd", "mem"])
        if x < 0.3:
            ops.append(["place", "s", r.randint(1, N)])
        elif x < 0.5:
            ops.append(["run", "s"])
        elif x < 0.75:
            ops.append(["place", "s", r.randint(0, N - 1)])
            ops.append(["intr", "s", ["place", "s", r.randint(1, 3)], {"frac": round(r.random(), 4)}, exc])
        else:
            ops.append(["intr", "s", ["run", "s"], {"frac": round(r.random(), 4)}, exc])
        if cls not in ("L1", "L2") and r.random() < 0.3:
            ops.append(["intr", "s", ["custom", "s", r.choice(["id", "idx"]), custom_seq(r, L, 0.6), r.random() < 0.3],
                        r.choice([{"end": r.randrange(12)}, {"frac": round(r.random(), 4)}]), exc])
        # the reset itself may be cut
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            nth = r.choice([1 + r.randrange(12), {"end": r.randrange(30)}, {"end": r.randrange(30)}, {"end": r.randrange(400)},
                            {"frac": round(r.random(), 4)}])
            ops.append(["intr", "s", ["reset", "s"], nth, r.choice(["kbd", "mem"])])
        ops.append(["reset", "s"])
        y = r.random()
        if cls in ("L1", "L2"):
            if y < 0.3 and L <= 5:
                ops += [["law", "s"], ["place", "s", r.randint(1, N)], ["law", "s"]]
            ops.append([r.choice(["run", "finish"]), "s"])
        elif y < 0.5:
            ops.append(["fresh_compare", "s", custom_seq(r, L, 0.3)])
        else:
            ops += realization(r, "s", cls, L)
    return {"ops": ops}


def gen_C24(r, i, tier):
    """histories with operations cut short, several simulations, threads"""
    if large_at(i, 900):
        return large(r)
    if r.random() < 0.008:
        return {"ops": many(r, r.choice(LIFE)), "rng": {"mode": "fair"}}
    if r.random() < 0.6:
        return {"ops": history(r), "rng": rng_mode(r)}
    cls = r.choice(ALL)
    L = pick_length(r, cap=16)
    N = L * L
    ops = [["new", "s", cls, L, maybe_seed(r, 0.25)]]
    for _ in range(r.choice([1, 2, 3])):
        ops += realization(r, "s", cls, L, custom_p=0.3) if r.random() < 0.4 else [["place", "s", r.randint(0, N - 1)]]
        ops.append(["intr", "s", r.choice([["place", "s", r.randint(1, 3)], ["reset", "s"]]), {"frac": round(r.random(), 4)},
                    r.choice(["kbd", "mem"])])
        ops.append(["reset", "s"])
    return {"ops": ops + realization(r, "s", cls, L)}


def gen_C25(r, i, tier):
    return gen_C24(r, i % 900, tier) if i % 900 != 883 else {"ops": history(r)}


def gen_C10(r, i, tier):
    from .engine import INSPECT_PLAIN, INSPECT_LATTICE, INSPECT_SITE, INSPECT_OTHER
    names = INSPECT_PLAIN + INSPECT_LATTICE + INSPECT_SITE + INSPECT_OTHER
    cls = r.choice(("L0", "L1", "L2", "SP", "Base"))
    L = pick_length(r, cap=7 if r.random() < 0.97 else 24)
    if large_at(i, 2000):
        L = r.choice([91, 129, 131])
    N = L * L
    subset = r.sample(names, r.randint(3, len(names)))
    cuts = r.choice((0, 0, 0.15, 0.5))

    def looks(k):
        out = [[r.choice(subset), r.randrange(N)] for _ in range(k)]
        for x in out:
            if cuts and r.random() < cuts:
                x.append([r.choice(("kbd", "kbd", "mem", "pipe")), min(1 + int(r.expovariate(1) * 6), 60) if r.random() < 0.6
                          else 1 + int(2 ** (r.random() * 11))])
        return out
    steps = [["look", looks(r.randint(0, 4))]]
    for _ in range(r.randint(2, 7) if L > 3 or i % 100 else r.choice([40, 120, 300])):
        x = r.random()
        if x < 0.5:
            steps.append(["place", r.choice([1, 1, 2, 5, N // 2, N])] + (["untested"] if r.random() < 0.35 else []))
        elif x < 0.65:
            steps.append(["run", sorted(r.sample(range(1, N + 1), min(N, r.randint(1, 6)))), looks(r.randint(1, 3))])
        elif x < 0.85:
            steps.append(["reset"])
        elif cls not in ("L1", "L2"):
            steps.append(["custom", custom_seq(r, L), r.random() < 0.3])
            steps.append(["reset"])
        steps.append(["look", looks(r.randint(1, 6))])
    return {"ops": [["twin", cls, L, maybe_seed(r, 0.4), steps]]}


def gen_C27(r, i, tier):
    cls = r.choice(("L0", "L1", "L2", "SP", "Base"))
    L = pick_length(r, cap=6 if r.random() < 0.97 else 24)
    N = L * L
    cuts = r.choice((0, 0, 0, 0.2))

    def bad_id():
        return r.choice([N, N, N + 1, N + L, 2 * N, N + r.randrange(3 * N), -1, -1, -L, -N, -r.randint(1, N), 10 ** 9, -10 ** 9])

    def request():
        x = r.random()
        shuffle = r.random() < 0.4
        if x < 0.1:
            out = ["refuse-place", [r.randint(1, 4), False]]
        elif x < 0.2:
            out = [r.choice(("refuse-ids", "refuse-idx")), [r.choice([[], None, [None], [0, None, 1], ["a"], [0, "1"]]), shuffle]]
        else:
            seq = custom_seq(r, L, 0.5)
            if r.random() < 0.1:
                seq = []
            for _ in range(r.choice((1, 1, 1, 2, 5))):
                b = bad_id()
                if seq and r.random() < 0.5:
                    seq[r.choice((0, -1, r.randrange(len(seq))))] = b
                else:
                    seq.insert(r.choice((0, len(seq), r.randint(0, len(seq)))), b)
            if r.random() < 0.5:
                out = ["refuse-ids", [seq, shuffle]]
            else:
                # the same as (row, column) pairs; either coordinate may be the one outside
                pairs = [[s // L, s % L] for s in seq]
                if r.random() < 0.3:
                    pairs = [[p[0] - 1, p[1] + L] if not 0 <= s < N and r.random() < 0.5 else p for p, s in zip(pairs, seq)]
                out = ["refuse-idx", [pairs, shuffle]]
        if cuts and out[0] != "refuse-place" and r.random() < cuts:
            out.append([r.choice(("kbd", "mem")), min(1 + int(r.expovariate(1) * 6), 60)])
        return out

    def requests(k, within=False):
        out = [request() for _ in range(k)]
        return [x for x in out if not within or x[0] != "refuse-place"]
    steps = [["look", requests(r.randint(0, 3))]]
    for _ in range(r.randint(2, 7) if i % 200 or L > 4 else r.choice([40, 120, 300])):
        x = r.random()
        if x < 0.5:
            steps.append(["place", r.choice([1, 1, 2, 5, N // 2, N])])
        elif x < 0.65:
            steps.append(["run", sorted(r.sample(range(1, N + 1), min(N, r.randint(1, 6)))), requests(r.randint(1, 3), True)])
        elif x < 0.85:
            steps.append(["reset"])
        elif cls not in ("L1", "L2"):
            steps.append(["custom", custom_seq(r, L), r.random() < 0.3])
            steps.append(["reset"])
        steps.append(["look", requests(r.randint(1, 4))])
    return {"ops": [["twin", cls, L, maybe_seed(r, 0.4), steps]]}


def gen_C28(r, i, tier):
    from .engine import INSPECT_PLAIN, INSPECT_LATTICE, INSPECT_SITE, INSPECT_OTHER
    cls = r.choice(("L0", "L1", "L2", "SP", "Base"))
    L = r.choice((3, 3, 3, 4, 5)) if i % 25 else r.choice((7, 8, 12, 16, 20))
    N = L * L
    names = INSPECT_PLAIN + INSPECT_LATTICE + INSPECT_SITE + INSPECT_OTHER

    def look():
        return [["look", [[r.choice(names), r.randrange(N)] for _ in range(r.randint(1, 4))]]] if r.random() < 0.25 else []
    prog = look()
    for _ in range(r.choice((1, 1, 1, 2))):
        if cls not in ("L1", "L2") and r.random() < 0.15:
            prog += [["custom", custom_seq(r, L), r.random() < 0.3], ["reset"]]
        if r.random() < 0.4:
            prog += [["place", r.randint(1, N)]] + look()
        if r.random() < 0.6:
            prog += [["run"]] + look()
        if r.random() < 0.35 and prog and prog[-1][0] in ("run", "place"):
            prog[-1] = prog[-1] + [{"how": r.choice(("kbd", "mem")), "n": r.randrange(1, 10 ** 6), "of": r.choice((20, 200, 2000))}]
        prog += [["reset"]] + look()
    return {"ops": [["reuse", cls, L, maybe_seed(r, 0.4), {3: 100}.get(L, 60), prog]]}


DAMAGES = ("site-label", "bond-label", "site-id", "bond-id", "site-bonds", "bond-sites", "relative", "cluster")


def gen_C29(r, i, tier):
    cls = r.choice(ALL)
    L = pick_length(r, cap=10 if r.random() < 0.97 else 24)
    if large_at(i, 1500):
        L = r.choice([91, 129, 131])
    N = L * L
    ops = [["new", "s", cls, L, maybe_seed(r, 0.25)]]
    kinds = r.sample(DAMAGES, r.randint(2, len(DAMAGES)))

    def damage(k):
        return [["damage", "s", r.choice(kinds), r.randrange(2 * N), r.randrange(10 ** 6)] for _ in range(k)]
    for j in range(r.choice((1, 1, 2, 3))):
        if j:
            ops.append(["reset", "s"])
            ops += damage(r.choice((0, 0, 2)))
        if cls not in ("L1", "L2") and r.random() < 0.5:
            ops.append(["custom", "s", r.choice(["id", "idx"]), custom_seq(r, L), False])
        done = 0
        while done < N and r.random() < 0.7:
            k = r.randint(1, N - done)
            ops.append(["place", "s", k])
            ops += damage(r.randint(0, 3))
            done += k
        if r.random() < 0.6:
            ops += [["place", "s", N]] + damage(r.randint(1, 8))
            if r.random() < 0.4:
                ops += [["damage", "s", r.choice(("cluster", "site-label", "bond-label")), r.randrange(2 * N), r.randrange(10 ** 6)]]
    return {"ops": ops, "rng": rng_mode(r)}


def gen_C11(r, i, tier):
    if r.random() < 0.12:
        # seeded simulations in preempted threads, or step by step in turns, against themselves alone
        ops = gen_C12(r, i, tier)["ops"]
        ops = [o[:4] + [o[4] if o[4] is not None else maybe_seed(r, 1.0)] if o[0] == "new" else o for o in ops
               if o[0] != "alone"]
        return {"ops": ops + [["alone"]]}
    cls = r.choice(("L0", "L1", "L2", "SP", "Base", "L1", "L2"))
    L = pick_length(r, cap=9 if r.random() < 0.97 else 33)
    times = r.randint(1, 4)
    if large_at(i, 1000):
        L, times = r.choice([91, 129, 131, 182]), 1
    elif i % 100 == 77:
        L, times = r.choice([3, 3, 4]), r.choice(LIFE)
    N = L * L
    prog = []
    for _ in range(times):
        x = r.random()
        if x < 0.4:
            prog.append(["run"])
        elif x < 0.7:
            prog.append(["place", r.randint(1, N)])
        else:
            prog.append(["reset"])
        if r.random() < 0.5:
            prog.append(["reset"])
    if prog[-1][0] == "reset":
        prog.append(["run"])
    if cls not in ("L1", "L2") and r.random() < 0.2:
        prog = [["custom", custom_seq(r, L, 0.0)]] + prog
    noise = {"rate": r.choice([0.02, 0.1, 0.5]), "before": r.choice([0, 0, 3]), "id": i}
    return {"ops": [["seeded", cls, L, maybe_seed(r, 1.0), prog, noise]]}


def gen_C12(r, i, tier):
    if i % 40 == 21:
        ops = pair(r, runs=r.random() < 0.5)["ops"]
        return {"ops": ops + [["alone"]] if any(o[0] == "new" and o[4] is not None for o in ops) else ops}
    mode = r.random()
    ops = []
    n = r.choice([2, 2, 3, 4])
    ps = r.choice([0.2, 0.8])
    keys = []
    sameL = r.choice([None, r.randint(3, 8), r.randint(3, 6)])
    if mode >= 0.5 and sameL:
        sameL = min(sameL, 5)
    alike = r.choice([None, None, "L1", "L2", "L2", r.choice(ALL)])
    for k in range(n):
        cls = alike if alike and r.random() < 0.8 else r.choice(ALL)
        L = sameL or r.randint(3, 7)
        if mode >= 0.5:
            L = min(L, 5)
        keys.append((f"s{k}", cls, L))
        ops.append(["new", f"s{k}", cls, L, maybe_seed(r, ps)])
    # possibly a shared custom sequence for the unbiased ones of equal length
    if sameL and r.random() < 0.6:
        kind = r.choice(["id", "id", "idx"])
        seq = custom_seq(r, sameL, 0.3)
        for key, cls, L in keys:
            if cls not in ("L1", "L2") and r.random() < 0.85:
                ops.append(["custom", key, kind, seq, r.random() < 0.6, "shared"])
                if r.random() < 0.3:
                    ops.append(["reset", key])
    if mode < 0.4:
        slots = []
        for _ in range(r.randint(10, 40 * n)):
            key = r.choice(keys)[0]
            slots.append([key, "reset" if r.random() < 0.04 else "place"])
        ops.append(["interleave", slots])
        if r.random() < 0.5:
            ops += [["reset", keys[0][0]], ["run", keys[0][0]]]
    elif mode < 0.5:
        for _ in range(r.randint(1, 3)):
            for key, cls, L in keys:
                ops.append(r.choice([["run", key], ["finish", key], ["place", key, r.randint(1, L * L)]]))
            key = r.choice(keys)[0]
            ops += [["reset", key], ["run", key]]
    else:
        bodies = []
        for key, cls, L in keys:
            b = []
            for _ in range(r.choice([1, 1, 2])):
                if b or r.random() < 0.3:
                    b.append(["reset", key])
                b.append(r.choice([["run", key], ["run", key], ["finish", key], ["place", key, r.randint(1, L * L)]]))
            bodies.append(b)
        sched = {"gap": r.choice([3, 15, 60, 300, 1500]), "id": i}
        if r.random() < 0.5:
            k = r.choice([2, 4, 8, 12])
            sched.update(gap=r.choice([60, 300, 1500]), hot=[k, r.randrange(k), r.choice([0.2, 0.5, 0.9])], limit=r.choice([400, 1200]))
        ops.append(["threads", bodies, sched])
        if r.random() < 0.3:
            ops += [["reset", keys[0][0]], ["run", keys[0][0]]]
    if any(o[0] == "new" and o[4] is not None for o in ops):
        ops.append(["alone"])
    return {"ops": ops}


def gen_C13(r, i, tier):
    if large_at(i, 800):
        return large(r, ("SP",))
    if i % 250 == 77:
        return {"ops": many(r, r.choice(LIFE), classes=("SP",), place=0)}
    if i % 80 == 21:
        return pair(r, ("SP",), True)
    L = pick_length(r, cap=20)
    ops = [["new", "s", "SP", L, maybe_seed(r, 0.2)]]
    for j in range(r.choice([1, 2, 3])):
        if j or r.random() < 0.3:
            ops.append(["reset", "s"])
        x = r.random()
        if x < 0.45:
            o = two_bands(r, L)
            if r.random() < 0.15:
                o = o[:r.randint(1, len(o))]
            ops.append(["custom", "s", r.choice(["id", "idx"]), o, False])
            if r.random() < 0.2:
                ops.append(["reset", "s"])
        elif x < 0.8:
            ops.append(["custom", "s", r.choice(["id", "idx"]), custom_seq(r, L, 0.3), r.random() < 0.15])
        ops.append(["run", "s"])
    return {"ops": ops}


def gen_C14(r, i, tier):
    if large_at(i, 400):
        return large(r)
    if i % 250 == 77:
        return {"ops": many(r, r.choice(LIFE), place=0)}
    if i % 80 == 21:
        return pair(r, runs=True)
    cls = r.choice(("L0", "L1", "L1", "L2", "L2", "Base", "SP"))
    L = pick_length(r, cap=12)
    ops = [["new", "s", cls, L, maybe_seed(r)]]
    for j in range(r.choice([1, 2, 2])):
        if j or r.random() < 0.3:
            ops.append(["reset", "s"])
        ops += realization(r, "s", cls, L, run_p=0.6, partial=0.0, custom_p=0.3)
    return {"ops": ops, "rng": rng_mode(r)}


def gen_C15(r, i, tier):
    if large_at(i, 600):
        return large(r, ("L0", "Base", "L1", "L2"))
    if i % 80 == 21:
        return pair(r, ("L0", "Base", "L1", "L2"), True)
    if r.random() < 0.008:
        return {"ops": many(r, r.choice(LIFE))}
    cls = r.choice(("L0", "L0", "Base", "L1", "L2"))
    L = pick_length(r, cap=12)
    N = L * L
    ops = [["new", "s", cls, L, maybe_seed(r)]]
    for j in range(r.choice([1, 2, 3, 4])):
        if j or r.random() < 0.4:
            ops.append(["reset", "s"])
        if cls in ("L1", "L2"):
            if r.random() < 0.3:
                ops.append(["place", "s", r.randint(1, N)])
            ops.append(["run", "s"])
            if r.random() < 0.2:
                ops.append(["reset", "s"])
                ops.append(["place", "s", r.randint(1, N)])
            continue
        if r.random() < 0.6:
            o = custom_seq(r, L, 0.7)
            ops.append(["custom", "s", r.choice(["id", "idx"]), o, False])
            if r.random() < 0.25:
                ops.append(["reset", "s"])
            if r.random() < 0.2:
                ops.append(["place", "s", r.randint(1, N)])
            ops.append(["run", "s"])
            if r.random() < 0.3 and len(o) < N:
                # go on with a longer sequence that starts with the one just used
                ops.append(["custom", "s", "id", o + rest(r, L, o, "r")[:r.randint(1, N)], False])
                ops.append(["run", "s"])
        else:
            if r.random() < 0.3:
                ops.append(["place", "s", r.randint(1, N)])
            ops.append(["run", "s"])
    return {"ops": ops, "rng": rng_mode(r, 0.1)}


HOWS = ("deepcopy", "deepcopy", "pair", -1, -1, 2, 4)


def gen_C31(r, i, tier):
    """copies, and simulations saved by a process that dies and loaded by another"""
    cls = r.choice(ALL)
    big = i % 150 == 77
    L = r.choice([24, 33, 48, 70]) if big else pick_length(r, cap=12, big=False)
    N = L * L
    ops = [["new", "s", cls, L, maybe_seed(r)]]
    keys = ["s"]
    done = set()

    def some(key):
        x = r.random()
        if x < 0.5 and key not in done:
            return [["place", key, r.randint(1, max(1, N // 2))]]
        if x < 0.62 and key not in done:
            done.add(key)
            return [["finish", key]]
        if x < 0.8:
            done.discard(key)
            return [["reset", key]]
        if x < 0.9 and cls not in ("L1", "L2"):
            done.discard(key)
            kind = r.choice(["id", "idx"])
            return [["reset", key], ["custom", key, kind, custom_seq(r, L, 0.7), r.random() < 0.3]]
        done.add(key)
        return [["reset", key], ["run", key]]
    for _ in range(r.randint(0, 3)):
        ops += some("s")
    if r.random() < 0.06 and not big:
        ops += [["intr", "s", r.choice([["place", "s", r.randint(1, 5)], ["reset", "s"]]),
                 {"frac": round(r.random(), 4)}, "kbd"]]
        cut = True
    else:
        cut = False
    if r.random() < 0.5 and "s" not in done:
        ops.append(["place", "s", r.randint(1, N)])
    for k in range(1 if big else r.choice([1, 1, 2, 3])):
        src = r.choice(keys)
        key = f"c{k}"
        ops.append(["copy", src, key, r.choice(HOWS)])
        if src in done:
            done.add(key)
        keys.append(key)
        if cut:
            ops += [["reset", x] for x in (src, key)]
            done -= {src, key}
            cut = False
        elif r.random() < 0.6:
            ops.append(["same", src, key, r.choice(HOWS), r.choice([1, 1, 2])])
        for _ in range(r.randint(1, 4)):
            ops += some(r.choice(keys))
    if r.random() < 0.4:
        keep = [k for k in keys if r.random() < 0.8] or ["s"]
        ops.append(["restart", keep, r.choice([0, 1, 1, 2])])
        for _ in range(r.randint(1, 4)):
            ops += some(r.choice(keep))
    return {"ops": ops}
