"""Brute-force oracles: every legal structure of a model, written out.

Nothing here imports torch_struct.  Each ``*_support`` function returns a dense
float64 matrix with one row per legal structure and one column per event cell
(row-major flattening of the padded event shape); a cell holds how often the
structure uses that part.  All exact quantities follow from that matrix and the
vector of potentials.
"""
import itertools
import math
from functools import lru_cache

import numpy as np


# --------------------------------------------------------------------------
# enumeration of structures


@lru_cache(maxsize=None)
def lc_support(N, C, l):
    """Label sequences y_0..y_{l-1}; event (N-1) x C x C indexed [n, y_{n+1}, y_n]."""
    E = (N - 1) * C * C
    rows = []
    for y in itertools.product(range(C), repeat=l):
        r = np.zeros((N - 1, C, C))
        for n in range(l - 1):
            r[n, y[n + 1], y[n]] += 1
        rows.append(r.reshape(E))
    return np.array(rows).reshape(len(rows), E)


@lru_cache(maxsize=None)
def sm_support(N1, K, C, l):
    """Segmentations of positions 0..l-1; event N1 x K x C x C indexed
    [start, width, label after, label before], 1 <= width < K."""
    E = N1 * K * C * C
    rows = []

    def rec(n, c, parts):
        if n == l - 1:
            r = np.zeros((N1, K, C, C))
            for p in parts:
                r[p] += 1
            rows.append(r.reshape(E))
            return
        for k in range(1, K):
            if n + k <= l - 1:
                for c2 in range(C):
                    rec(n + k, c2, parts + [(n, k, c2, c)])

    for c in range(C):
        rec(0, c, [])
    return np.array(rows).reshape(len(rows), E)


def is_tree(heads):
    """heads[m-1] in 0..n is the head of word m; every word reaches 0."""
    n = len(heads)
    for m in range(1, n + 1):
        seen = set()
        c = m
        while c != 0:
            if c in seen:
                return False
            seen.add(c)
            c = heads[c - 1]
    return True


def is_projective(heads):
    """Every word strictly between a word and its head descends from that head."""
    n = len(heads)
    for m in range(1, n + 1):
        h = heads[m - 1]
        for x in range(min(h, m) + 1, max(h, m)):
            c = x
            while c != 0 and c != h:
                c = heads[c - 1]
            if c != h:
                return False
    return True


@lru_cache(maxsize=None)
def dep_heads(l, multiroot, proj):
    out = []
    for heads in itertools.product(range(l + 1), repeat=l):
        if any(h == m + 1 for m, h in enumerate(heads)):
            continue
        nroot = sum(1 for h in heads if h == 0)
        if nroot == 0 or (nroot > 1 and not multiroot):
            continue
        if not is_tree(heads):
            continue
        if proj and not is_projective(heads):
            continue
        out.append(heads)
    return out


@lru_cache(maxsize=None)
def dep_support(N, L, l, multiroot, proj=True):
    """Event N x N (x L): [head, child], root arcs on the diagonal.  L=0: unlabelled."""
    LL = max(L, 1)
    E = N * N * LL
    rows = []
    for heads in dep_heads(l, multiroot, proj):
        for labs in itertools.product(range(LL), repeat=l):
            r = np.zeros((N, N, LL))
            for m in range(1, l + 1):
                h = heads[m - 1]
                r[(h - 1) if h > 0 else (m - 1), m - 1, labs[m - 1]] += 1
            rows.append(r.reshape(E))
    return np.array(rows).reshape(len(rows), E)


@lru_cache(maxsize=None)
def brackets(i, j):
    """All binary bracketings of the inclusive span i..j as tuples of spans."""
    if i == j:
        return [((i, i),)]
    out = []
    for k in range(i, j):
        for a in brackets(i, k):
            for b in brackets(k + 1, j):
                out.append(((i, j),) + a + b)
    return out


@lru_cache(maxsize=None)
def tree_support(N, NT, l):
    """Labelled binary trees; event N x N x NT indexed [first, last, label]."""
    E = N * N * NT
    rows = []
    for spans in brackets(0, l - 1):
        for labs in itertools.product(range(NT), repeat=len(spans)):
            r = np.zeros((N, N, NT))
            for (i, j), a in zip(spans, labs):
                r[i, j, a] += 1
            rows.append(r.reshape(E))
    return np.array(rows).reshape(len(rows), E)


@lru_cache(maxsize=None)
def cfg_derivations(NT, T, i, j):
    """symbol -> list of (rule uses, leaf tags, spans) deriving words i..j."""
    if i == j:
        return {NT + t: [((), ((i, t),), ())] for t in range(T)}
    out = {a: [] for a in range(NT)}
    for k in range(i, j):
        left = cfg_derivations(NT, T, i, k)
        right = cfg_derivations(NT, T, k + 1, j)
        for b, lds in left.items():
            for c, rds in right.items():
                for ld in lds:
                    for rd in rds:
                        for a in range(NT):
                            out[a].append(
                                (
                                    ((a, b, c),) + ld[0] + rd[0],
                                    ld[1] + rd[1],
                                    ((i, j, a),) + ld[2] + rd[2],
                                )
                            )
    return out


@lru_cache(maxsize=None)
def cfg_support(N, NT, T, l):
    """Columns: terms N x T, rules NT x S x S, roots NT.  Second result: the
    spans of each derivation, N x N x NT indexed [width-1, start, label]
    (width counted so that a two-word span has width 1)."""
    S = NT + T
    rows, sp = [], []
    for a, ders in cfg_derivations(NT, T, 0, l - 1).items():
        if a >= NT:
            continue
        for rules, tags, spans in ders:
            t = np.zeros((N, T))
            r = np.zeros((NT, S, S))
            root = np.zeros(NT)
            s = np.zeros((N, N, NT))
            for x in rules:
                r[x] += 1
            for x in tags:
                t[x] += 1
            for (i, j, b) in spans:
                s[j - i - 1, i, b] += 1
            root[a] += 1
            rows.append(np.concatenate([t.ravel(), r.ravel(), root]))
            sp.append(s.ravel())
    return np.array(rows), np.array(sp)


# --------------------------------------------------------------------------
# sizes, without enumerating


def catalan(n):
    return math.comb(2 * n, n) // (n + 1)


def lc_count(N, C, l):
    return C**l


def sm_count(N1, K, C, l):
    f = [0] * l
    f[0] = C
    for n in range(1, l):
        f[n] = C * sum(f[n - k] for k in range(1, K) if n - k >= 0)
    return f[l - 1]


@lru_cache(maxsize=None)
def dep_count(N, L, l, multiroot, proj=True):
    """Closed forms, so that larger sizes need no enumeration."""
    LL = max(L, 1) ** l
    if proj:
        if multiroot:
            n = math.comb(3 * l, l) // (2 * l + 1)
        else:
            n = math.comb(3 * l - 2, l - 1) // l
    else:
        n = (l + 1) ** (l - 1) if multiroot else l ** (l - 1)
    return n * LL


def tree_count(N, NT, l):
    return catalan(l - 1) * NT ** (2 * l - 1)


def cfg_count(N, NT, T, l):
    return catalan(l - 1) * NT ** (l - 1) * T**l


# --------------------------------------------------------------------------
# exact quantities from a support matrix


def lse(x):
    m = np.max(x)
    if not np.isfinite(m):
        return m
    return m + np.log(np.sum(np.exp(x - m)))


class Exact:
    """Everything a model should answer for one item: support rows ``M`` and
    potentials ``phi`` (entries may be -inf: structures using them have weight 0)."""

    def __init__(self, M, phi):
        self.M = M
        phi = np.asarray(phi, dtype=np.float64)
        ninf = np.isneginf(phi)
        self.scores = M @ np.where(ninf, 0.0, phi)
        if ninf.any():
            self.scores[(M @ ninf.astype(np.float64)) > 0] = -np.inf
        self.phi = phi

    @property
    def n(self):
        return int(np.sum(~np.isneginf(self.scores)))

    @property
    def logZ(self):
        return lse(self.scores)

    @property
    def logp(self):
        return self.scores - self.logZ

    @property
    def p(self):
        return np.exp(self.logp)

    @property
    def marg(self):
        return self.p @ self.M

    @property
    def max(self):
        return np.max(self.scores)

    def kbest(self, k):
        s = np.sort(self.scores)[::-1]
        return s[:k]

    @property
    def entropy(self):
        p, lp = self.p, self.logp
        return -float(np.sum(p[p > 0] * lp[p > 0]))

    def cross_entropy(self, other):
        p, lq = self.p, other.logp
        return -float(np.sum(p[p > 0] * lq[p > 0]))

    def kl(self, other):
        return self.cross_entropy(other) - self.entropy

    @property
    def scale(self):
        s = self.scores[np.isfinite(self.scores) & (self.scores > -1e8)]
        return 1.0 + float(np.max(np.abs(s))) if len(s) else 1.0


def row_index(M, v):
    """Indices of the rows of M equal to the vector v (exactly)."""
    return np.nonzero((M == np.asarray(v, dtype=np.float64)[None]).all(1))[0]
