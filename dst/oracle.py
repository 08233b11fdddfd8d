"""
Reference decoder, written from the documented decoding problem only (README "Fitters" and the
docstrings of correct_readout / path degeneracy).  Exact dynamic programming over the set of
syndrome hits, so it is slow and small, and shares no code and no data structure with qtcodes.

A hit is (t, k): check number k of the decoded type changed between rounds t and t+1.
"""
import math
from functools import lru_cache

INF = float("inf")


class Space:
    """Space-time error graph of one check type over T time steps."""

    def __init__(self, lat, typ, T):
        self.lat, self.typ, self.T = lat, typ, T
        checks = lat.checks[typ]
        self.nchk = len(checks)
        # spatial edges: each data qubit joins two checks, or a check and a boundary face
        line = set(lat.row if typ == "Z" else lat.col)
        self.faces = {}
        self.space_edges = []  # (a, b) with a, b check numbers or ("v", face)
        index = {c: k for k, c in enumerate(checks)}
        for q in range(lat.n):
            r, c = divmod(q, lat.dw)
            ends = []
            even = (r + c) % 2 == 0
            # the two faces of this type that touch data qubit (r, c)
            if (typ == "Z") == even:
                cand = [(r - 0.5, c - 0.5), (r + 0.5, c + 0.5)]
            else:
                cand = [(r - 0.5, c + 0.5), (r + 0.5, c - 0.5)]
            for f in cand:
                ends.append(index[f] if f in index else ("v", f))
            self.space_edges.append(tuple(ends))
            for e in ends:
                if isinstance(e, tuple):
                    self.faces.setdefault(e[1], q in line)
        self.vfaces = sorted(self.faces)
        self.nvf = len(self.vfaces)
        self.V = self.nchk * T + self.nvf
        vid = {f: self.nchk * T + i for i, f in enumerate(self.vfaces)}
        adj = [set() for _ in range(self.V)]
        for a, b in self.space_edges:
            for t in range(T):
                u = vid[a[1]] if isinstance(a, tuple) else t * self.nchk + a
                v = vid[b[1]] if isinstance(b, tuple) else t * self.nchk + b
                if isinstance(a, tuple) and isinstance(b, tuple):
                    continue
                adj[u].add(v)
                adj[v].add(u)
        for t in range(T - 1):
            for k in range(self.nchk):
                u, v = t * self.nchk + k, (t + 1) * self.nchk + k
                adj[u].add(v)
                adj[v].add(u)
        self.adj = [sorted(s) for s in adj]
        # does a boundary face lie on the readout side?
        if typ == "Z":
            self.vside = [f[0] == -0.5 for f in self.vfaces]
        else:
            self.vside = [f[1] == -0.5 for f in self.vfaces]
        self._bfs = {}

    def node(self, hit):
        return int(hit[0]) * self.nchk + hit[1]

    def bfs(self, u):
        """Distances from u and numbers of shortest paths."""
        if u not in self._bfs:
            dist = [-1] * self.V
            cnt = [0] * self.V
            dist[u], cnt[u] = 0, 1
            layer = [u]
            while layer:
                nxt = []
                for a in layer:
                    for b in self.adj[a]:
                        if dist[b] < 0:
                            dist[b] = dist[a] + 1
                            nxt.append(b)
                        if dist[b] == dist[a] + 1:
                            cnt[b] += cnt[a]
                layer = nxt
            self._bfs[u] = (dist, cnt)
        return self._bfs[u]

    # ------------------------------------------------------------ minimum number of faults
    def class_minima(self, hits):
        """
        (w0, w1): fewest elementary faults that explain the hits and leave the readout
        unflipped / flipped.  Exact.
        """
        hits = sorted(hits)
        n = len(hits)
        nodes = [self.node(h) for h in hits]
        base = self.nchk * self.T
        # paths through a boundary face are two boundary connections, so allow them freely
        pair = [[INF] * n for _ in range(n)]
        edge0, edge1 = [INF] * n, [INF] * n
        for i in range(n):
            dist, _ = self.bfs(nodes[i])
            for j in range(n):
                pair[i][j] = dist[nodes[j]]
            for v in range(self.nvf):
                dv = dist[base + v]
                if dv < 0:
                    continue
                if self.vside[v]:
                    edge1[i] = min(edge1[i], dv)
                else:
                    edge0[i] = min(edge0[i], dv)

        @lru_cache(maxsize=None)
        def best(mask):
            if not mask:
                return (0, INF)
            i = mask.bit_length() - 1
            rest = mask ^ (1 << i)
            a, b = best(rest)
            r0 = min(a + edge0[i], b + edge1[i])
            r1 = min(a + edge1[i], b + edge0[i])
            m = rest
            while m:
                low = m & -m
                j = low.bit_length() - 1
                m ^= low
                a, b = best(rest ^ low)
                r0 = min(r0, a + pair[i][j])
                r1 = min(r1, b + pair[i][j])
            return (r0, r1)

        return best((1 << n) - 1)

    # ------------------------------------------------------------ degeneracy weighted
    def weighted_minima(self, hits, p, limit=200000):
        """
        (w0, w1) for the degeneracy weighted problem: connecting two hits, or a hit and a
        boundary face, costs  length - ln(number of equivalent shortest chains)/ln((1-p)/p);
        each boundary face can terminate one chain.  None if too large to do exactly.
        """
        hits = sorted(hits)
        n = len(hits)
        lam = math.log1p(-p) - math.log(p)
        base = self.nchk * self.T
        nodes = [self.node(h) for h in hits]
        pair = [[INF] * n for _ in range(n)]
        bnd = [[INF] * self.nvf for _ in range(n)]
        for i in range(n):
            dist, cnt = self.bfs(nodes[i])
            for j in range(n):
                if j != i:
                    pair[i][j] = dist[nodes[j]] - math.log(cnt[nodes[j]]) / lam
            tot = {}
            for v in range(self.nvf):
                tot[dist[base + v]] = tot.get(dist[base + v], 0) + cnt[base + v]
            for v in range(self.nvf):
                dv = dist[base + v]
                bnd[i][v] = dv - math.log(tot[dv]) / lam
        memo = {}

        def best(mask, used):
            if not mask:
                return (0.0, INF)
            key = (mask, used)
            if key in memo:
                return memo[key]
            if len(memo) > limit:
                raise OverflowError
            i = mask.bit_length() - 1
            rest = mask ^ (1 << i)
            r0 = r1 = INF
            m = rest
            while m:
                low = m & -m
                j = low.bit_length() - 1
                m ^= low
                a, b = best(rest ^ low, used)
                r0 = min(r0, a + pair[i][j])
                r1 = min(r1, b + pair[i][j])
            for v in range(self.nvf):
                if used >> v & 1:
                    continue
                a, b = best(rest, used | 1 << v)
                w = bnd[i][v]
                if self.vside[v]:
                    a, b = b, a
                r0 = min(r0, a + w)
                r1 = min(r1, b + w)
            memo[key] = (r0, r1)
            return memo[key]

        try:
            return best((1 << n) - 1, 0)
        except OverflowError:
            return None

    # ------------------------------------------------------------ the same for many hits
    def many(self, hits, p=None):
        """
        (w0, w1) like class_minima (p is None) or weighted_minima, for any number of hits.

        Fixing the class fixes how many chains end on either side, modulo two, so each class is a minimum weight
        perfect matching of its own: the boundary places of either side are only joined among themselves (free of
        charge, where unused), and a spare one is added where their number would come out odd.
        """
        cols, places = self._choices(hits, p)
        n = len(hits)
        out = []
        for parity in (0, 1):
            edges = {}

            def add(a, b, w):
                k = (min(a, b), max(a, b))
                edges[k] = min(w, edges.get(k, INF))

            size = n + len(places)
            for w, hs, place, _ in cols:
                add(*(hs if place is None else (hs[0], n + place)), w)
            for side, chains in ((0, n - parity), (1, parity)):
                mine = [n + k for k, s in enumerate(places) if s == side]
                if (len(mine) - chains) % 2:
                    mine.append(size)
                    size += 1
                for i, a in enumerate(mine):
                    for b in mine[:i]:
                        add(a, b, 0)
            out.append(_perfect(size, edges))
        return tuple(out)

    def _choices(self, hits, p):
        """([(cost, hits, boundary place or None, side)], [side of each boundary place])"""
        hits = sorted(hits)
        n = len(hits)
        lam = None if p is None else math.log1p(-p) - math.log(p)
        base = self.nchk * self.T
        nodes = [self.node(h) for h in hits]
        cols = []
        for i in range(n):
            dist, cnt = self.bfs(nodes[i])
            tot = {}
            for v in range(self.nvf):
                tot[dist[base + v]] = tot.get(dist[base + v], 0) + cnt[base + v]
            for side in (0, 1):
                mine = [v for v in range(self.nvf) if self.vside[v] == bool(side) and dist[base + v] >= 0]
                if p is None and mine:  # any number of chains may end anywhere: one private place per hit and side is enough
                    cols.append((min(dist[base + v] for v in mine), (i,), 2 * i + side, side))
                elif p is not None:
                    for v in mine:
                        dv = dist[base + v]
                        cols.append((dv - math.log(tot[dv]) / lam, (i,), v, side))
            for j in range(i):
                w = dist[nodes[j]]
                if w >= 0:
                    cols.append((w if p is None else w - math.log(cnt[nodes[j]]) / lam, (i, j), None, 0))
        return cols, [0, 1] * n if p is None else [int(x) for x in self.vside]

    def program(self, hits, p=None):
        """The same minima once more, as 0-1 linear programs: a second opinion."""
        cols, places = self._choices(hits, p)
        return tuple(_solve(len(hits), len(places), cols, k) for k in (0, 1))

    def confirmed(self, hits, p=None):
        """Both solvers agree on the minima of these hits."""
        a, b = self.many(hits, p), self.program(hits, p)
        return all(y is not None and (x == y or abs(x - y) < 1e-5) for x, y in zip(a, b))


def _perfect(size, edges):
    """Weight of the cheapest perfect matching; INF if there is none."""
    import retworkx as rx

    from dst import matching

    g = rx.PyGraph(multigraph=False)
    g.add_nodes_from(list(range(size)))
    g.add_edges_from([(a, b, w) for (a, b), w in edges.items()])
    pairs = matching.real(g, max_cardinality=True, weight_fn=lambda w: -round(w * SCALE))
    if len(pairs) * 2 != size:
        return INF
    return sum(edges[min(a, b), max(a, b)] for a, b in pairs)


SCALE = 10**6


def _solve(n, nvf, cols, parity):
    """Cheapest choice that uses every hit once, every face at most once, and `parity` of the readout side."""
    import numpy as np
    from scipy.optimize import Bounds, LinearConstraint, milp
    from scipy.sparse import csr_array

    m = len(cols)
    cost = np.array([c[0] for c in cols] + [0.0])
    row, col, val = [], [], []
    for k, (_, hs, face, side) in enumerate(cols):
        entries = [(h, 1) for h in hs]
        if face is not None:
            entries.append((n + face, 1))
        if side:
            entries.append((n + nvf, 1))
        for r, v in entries:
            row.append(r)
            col.append(k)
            val.append(v)
    row.append(n + nvf)
    col.append(m)
    val.append(-2)
    A = csr_array((val, (row, col)), shape=(n + nvf + 1, m + 1))
    lo = np.array([1] * n + [0] * nvf + [parity])
    hi = np.array([1] * (n + nvf) + [parity])
    res = milp(cost, constraints=LinearConstraint(A, lo, hi), integrality=np.ones(m + 1),
               bounds=Bounds(0, [1] * m + [n]), options={"mip_rel_gap": 0, "presolve": False})
    if res.status == 2:  # impossible
        return INF
    if res.status != 0:
        return None
    x = np.round(res.x)
    return float(cost @ x)


@lru_cache(maxsize=None)
def space(lat, typ, T):
    return Space(lat, typ, T)
