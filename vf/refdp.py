"""Textbook sequential dynamic programs over a pluggable algebra.

Used where enumeration is out of reach (long inputs).  Nothing here imports
torch_struct; tests/selftest compares these programs with the enumeration
oracle.  Each program takes one item: a nested array ``phi`` of algebra values,
a length, and an algebra object with ``plus(list)``, ``times(a, b)``, ``one``.
"""
import math
import heapq


class LogF:
    one = 0.0

    @staticmethod
    def plus(xs):
        m = max(xs)
        if m == -math.inf:
            return m
        return m + math.log(math.fsum(math.exp(x - m) for x in xs))

    @staticmethod
    def times(a, b):
        return a + b

    @staticmethod
    def lift(x):
        return float(x)


class MaxF(LogF):
    @staticmethod
    def plus(xs):
        return max(xs)


class CountI:
    one = 1

    @staticmethod
    def plus(xs):
        return sum(xs)

    @staticmethod
    def times(a, b):
        return a * b

    @staticmethod
    def lift(x):
        return 1


class KBest:
    def __init__(self, k):
        self.k = k
        self.one = (0.0,)

    def plus(self, xs):
        return tuple(heapq.nlargest(self.k, (v for x in xs for v in x)))

    def times(self, a, b):
        return tuple(heapq.nlargest(self.k, (u + v for u in a for v in b)))

    def lift(self, x):
        return (float(x),)


class TorchLog:
    """Values are 0-dim torch tensors, so autograd gives exact marginals."""

    def __init__(self, torch):
        self.torch = torch
        self.one = torch.zeros((), dtype=torch.float64)

    def plus(self, xs):
        if len(xs) == 1:
            return xs[0]
        return self.torch.logsumexp(self.torch.stack(xs), 0)

    @staticmethod
    def times(a, b):
        return a + b

    @staticmethod
    def lift(x):
        return x


def lc(phi, C, l, A):
    alpha = [A.one for _ in range(C)]
    for n in range(l - 1):
        alpha = [
            A.plus([A.times(alpha[c1], A.lift(phi[n][c2][c1])) for c1 in range(C)])
            for c2 in range(C)
        ]
    return A.plus(alpha)


def sm(phi, K, C, l, A):
    beta = [[A.one for _ in range(C)]]
    for n in range(1, l):
        row = []
        for c2 in range(C):
            terms = []
            for k in range(1, min(K - 1, n) + 1):
                for c1 in range(C):
                    terms.append(
                        A.times(beta[n - k][c1], A.lift(phi[n - k][k][c2][c1]))
                    )
            row.append(A.plus(terms))
        beta.append(row)
    return A.plus(beta[l - 1])


def dep(phi, L, l, multiroot, A):
    """phi[h][m] (or [h][m][label]), 0-based words, roots on the diagonal."""

    def s(h, m):
        if L:
            return A.plus([A.lift(phi[h][m][a]) for a in range(L)])
        return A.lift(phi[h][m])

    # comp[(i, j, 'R')]: i heads everything in i..j, closed to the right.
    comp, inc = {}, {}
    for i in range(l):
        comp[i, i, "R"] = comp[i, i, "L"] = A.one
    for w in range(1, l):
        for i in range(l - w):
            j = i + w
            mid = A.plus(
                [A.times(comp[i, k, "R"], comp[k + 1, j, "L"]) for k in range(i, j)]
            )
            inc[i, j, "R"] = A.times(mid, s(i, j))
            inc[i, j, "L"] = A.times(mid, s(j, i))
            comp[i, j, "R"] = A.plus(
                [A.times(inc[i, k, "R"], comp[k, j, "R"]) for k in range(i + 1, j + 1)]
            )
            comp[i, j, "L"] = A.plus(
                [A.times(comp[i, k, "L"], inc[k, j, "L"]) for k in range(i, j)]
            )
    # sub[(i, j)]: one root word governing exactly i..j, root arc included.
    sub = {}
    for i in range(l):
        for j in range(i, l):
            if not multiroot and (i, j) != (0, l - 1):
                continue
            sub[i, j] = A.plus(
                [
                    A.times(A.times(comp[i, r, "L"], comp[r, j, "R"]), s(r, r))
                    for r in range(i, j + 1)
                ]
            )
    if not multiroot:
        return sub[0, l - 1]
    pre = [A.one]
    for j in range(l):
        pre.append(A.plus([A.times(pre[i], sub[i, j]) for i in range(j + 1)]))
    return pre[l]


def tree(phi, NT, l, A):
    def s(i, j):
        return A.plus([A.lift(phi[i][j][a]) for a in range(NT)])

    ins = {}
    for i in range(l):
        ins[i, i] = s(i, i)
    for w in range(1, l):
        for i in range(l - w):
            j = i + w
            body = A.plus([A.times(ins[i, k], ins[k + 1, j]) for k in range(i, j)])
            ins[i, j] = A.times(body, s(i, j))
    return ins[0, l - 1]


def cfg(terms, rules, roots, NT, T, l, A):
    ins = {}
    for i in range(l):
        ins[i, i] = {NT + t: A.lift(terms[i][t]) for t in range(T)}
    for w in range(1, l):
        for i in range(l - w):
            j = i + w
            cell = {}
            for a in range(NT):
                opts = []
                for k in range(i, j):
                    for b, vb in ins[i, k].items():
                        for c, vc in ins[k + 1, j].items():
                            opts.append(
                                A.times(A.times(vb, vc), A.lift(rules[a][b][c]))
                            )
                cell[a] = A.plus(opts)
            ins[i, j] = cell
    return A.plus(
        [A.times(ins[0, l - 1][a], A.lift(roots[a])) for a in range(NT)]
    )
