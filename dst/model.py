"""Reference model of site percolation on the periodic square lattice (length >= 3).

Independent of the repository's algorithm: weighted union-find over sites (unfolded displacements) and a plain
union-find over bonds, instead of label rewriting.  `brute()` recomputes everything from the occupied set by
breadth-first search; the model is validated against it in selftest.py and, sampled, inside the checks.
"""
import math
from collections import deque


class Torus:
    _cache = {}

    def __new__(cls, L):
        t = cls._cache.get(L)
        if t is None:
            t = object.__new__(cls)
            t._init(L)
            cls._cache[L] = t
        return t

    def _init(self, L):
        self.L, self.N, self.B = L, L * L, 2 * L * L
        self.nbr = []       # site -> [(drow, dcol, site)] right, down, left, up
        self.bonds = []     # site -> 4 bond ids, same order
        N = self.N
        for r in range(L):
            for c in range(L):
                s = r * L + c
                left = r * L + (c - 1) % L
                up = ((r - 1) % L) * L + c
                self.nbr.append([(0, 1, r * L + (c + 1) % L), (1, 0, ((r + 1) % L) * L + c), (0, -1, left), (-1, 0, up)])
                self.bonds.append([s, N + s, left, N + up])
        self.ends = [None] * self.B
        for s in range(N):
            self.ends[s] = (s, self.nbr[s][0][2])
            self.ends[N + s] = (s, self.nbr[s][1][2])


class Model:
    def __init__(self, L):
        self.t = Torus(L)
        self.reset()

    def reset(self):
        t = self.t
        self.order = []
        self.occ = [False] * t.N
        self.par = list(range(t.N))
        self.off = [(0, 0)] * t.N         # displacement to parent
        self.ssz = [1] * t.N
        self.wraps = [False] * t.N        # at roots
        self.bpar = list(range(t.B))
        self.bsz = [1] * t.B
        self.hist = {1: t.B}              # size -> number of clusters
        self.largest = 0                  # among clusters containing a site
        self.wrap_at = None               # number of occupied sites at first wrapping
        self.wrap_site = None
        self.wrap_sites = None
        self.wrap_bonds = None
        self.other_wrap_clusters = 0
        self.line_at = None
        self.rows, self.cols = [0] * t.L, [0] * t.L     # occupied sites in every row and column

    def find(self, s):
        path = []
        while self.par[s] != s:
            path.append(s)
            s = self.par[s]
        root = s
        # compress: accumulate from the root end
        acc = (0, 0)
        for x in reversed(path):
            o = self.off[x]
            acc = (acc[0] + o[0], acc[1] + o[1])
            self.par[x], self.off[x] = root, acc
        return root

    def pos(self, s):
        r = self.find(s)
        return r, (self.off[s] if s != r else (0, 0))

    def bfind(self, b):
        p = self.bpar
        while p[b] != b:
            p[b] = p[p[b]]
            b = p[b]
        return b

    def _bunion(self, a, b):
        a, b = self.bfind(a), self.bfind(b)
        if a == b:
            return a
        if self.bsz[a] < self.bsz[b]:
            a, b = b, a
        h = self.hist
        for x in (self.bsz[a], self.bsz[b]):
            h[x] -= 1
            if not h[x]:
                del h[x]
        self.bpar[b] = a
        self.bsz[a] += self.bsz[b]
        h[self.bsz[a]] = h.get(self.bsz[a], 0) + 1
        return a

    def place(self, s):
        t = self.t
        assert not self.occ[s]
        self.occ[s] = True
        self.order.append(s)
        self.rows[s // t.L] += 1
        self.cols[s % t.L] += 1
        for dr, dc, n in t.nbr[s]:
            if not self.occ[n]:
                continue
            rn, pn = self.pos(n)
            rs, ps = self.pos(s)
            # want pos(n) - pos(s) = (dr, dc)
            if rn == rs:
                if (pn[0] - ps[0], pn[1] - ps[1]) != (dr, dc):
                    self.wraps[rs] = True
                continue
            if self.ssz[rn] > self.ssz[rs]:
                # attach rs below rn: off[rs] so that off[rs] + ps = pn - d
                self.par[rs] = rn
                self.off[rs] = (pn[0] - dr - ps[0], pn[1] - dc - ps[1])
                self.ssz[rn] += self.ssz[rs]
                self.wraps[rn] = self.wraps[rn] or self.wraps[rs]
            else:
                self.par[rn] = rs
                self.off[rn] = (ps[0] + dr - pn[0], ps[1] + dc - pn[1])
                self.ssz[rs] += self.ssz[rn]
                self.wraps[rs] = self.wraps[rs] or self.wraps[rn]
        b = t.bonds[s]
        for x in b[1:]:
            self._bunion(b[0], x)
        root = self.bfind(b[0])
        if self.bsz[root] > self.largest:
            self.largest = self.bsz[root]
        rs = self.find(s)
        if self.wrap_at is None and self.wraps[rs]:
            self.wrap_at = len(self.order)
            self.wrap_site = s
            self.wrap_sites = self.ssz[rs]
            self.wrap_bonds = self.bsz[root]

    # ---- observables
    def entropy(self):
        B = self.t.B
        return -math.fsum(k * (sz / B) * math.log(sz / B) for sz, k in self.hist.items())

    def p_largest(self):
        return self.largest / self.t.B

    def p_wrapping(self):
        if self.wrap_at is None:
            return 0.0
        return self.bsz[self.bfind(self.t.bonds[self.wrap_site][0])] / self.t.B

    def straight_line(self):
        """does the wrapping cluster contain all sites of a row or of a column?"""
        if self.wrap_at is None:
            return False
        w = self.find(self.wrap_site)
        L = self.t.L
        for i in range(L):
            if self.rows[i] == L and all(self.find(s) == w for s in range(i * L, (i + 1) * L)):
                return True
            if self.cols[i] == L and all(self.find(s) == w for s in range(i, self.t.N, L)):
                return True
        return False

    def any_line(self):
        L = self.t.L
        return any(all(self.occ[i * L:(i + 1) * L]) or all(self.occ[i::L]) for i in range(L))

    def state_hash(self):
        return hash((self.t.L, frozenset(self.order), self.order[-1] if self.order else None))


def series(L, order):
    """expected p, H, P_largest, P_wrapping after each placement; and the model after the last one"""
    m = Model(L)
    rows = []
    for k, s in enumerate(order, 1):
        m.place(s)
        rows.append((k / m.t.N, m.entropy(), m.p_largest(), m.p_wrapping()))
    return rows, m


def brute(L, occupied):
    """components as sorted lists of sites, whether each wraps, and bond cluster sizes: by BFS from scratch"""
    t = Torus(L)
    occ = set(occupied)
    comp, pos, comps = {}, {}, []
    for s in sorted(occ):
        if s in comp:
            continue
        i = len(comps)
        comp[s], pos[s] = i, (0, 0)
        q, members, wraps = deque([s]), [s], False
        while q:
            x = q.popleft()
            for dr, dc, n in t.nbr[x]:
                if n not in occ:
                    continue
                want = (pos[x][0] + dr, pos[x][1] + dc)
                if n in comp:
                    wraps = wraps or pos[n] != want
                else:
                    comp[n], pos[n] = i, want
                    members.append(n)
                    q.append(n)
        bonds = {b for x in members for b in t.bonds[x]}
        comps.append((sorted(members), wraps, len(bonds)))
    # a bond between two different site clusters cannot exist; two clusters may not share a bond
    return comps
