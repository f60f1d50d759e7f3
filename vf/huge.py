"""Cases far beyond enumeration: many states, labels, words, items; long inputs.

Potentials come from a seed, so a case stays small.  The oracle is refvec.
"""
import numpy as np
import torch
from hypothesis import strategies as st

from . import judge, kinds as K, refvec, stat
from .sut import expect, sut

DIMS = {
    "lc": [[2, 7], [3, 8], [4, 9], [2, 16], [2, 17], [3, 18], [5, 20], [9, 16], [2, 33], [3, 40], [2, 65], [2, 70], [16, 20], [34, 12], [65, 9],
           [13, 5], [31, 3], [33, 4], [63, 2], [64, 2], [65, 2], [66, 3], [80, 4], [100, 2], [127, 1], [128, 2], [129, 2],
           [130, 2], [131, 3], [140, 1], [200, 2], [257, 2], [258, 2], [259, 2], [262, 1], [280, 2], [300, 1], [2, 130], [3, 129],
           [513, 1], [515, 2], [1026, 1]],
    "sm": [[3, 4, 6], [17, 4, 5], [2, 3, 10], [4, 3, 12], [3, 2, 17], [2, 2, 33], [5, 8, 3], [6, 9, 2], [8, 12, 2], [10, 9, 3], [5, 20, 1],
           [12, 17, 1], [33, 9, 2], [31, 3, 3], [32, 5, 2], [40, 3, 4], [63, 3, 1], [64, 3, 2], [65, 4, 1], [66, 2, 3], [70, 4, 2],
           [100, 3, 1], [128, 3, 2], [129, 3, 1], [130, 4, 2], [140, 2, 2], [260, 3, 1], [258, 3, 2], [514, 2, 1]],
    "dep": [[N, L, mr] for N, L in ((6, 9), (3, 17), (2, 33), (8, 5), (13, 0), (14, 1), (15, 0), (16, 0), (16, 2), (17, 0), (18, 3), (20, 0),
                                    (24, 0), (31, 0), (12, 6), (2, 65), (3, 40), (33, 0), (34, 0))
            for mr in (1, 0)],
    "tree": [[5, 9], [18, 6], [4, 17], [2, 33], [3, 40], [10, 5], [13, 2], [15, 3], [16, 1], [16, 4], [17, 2], [18, 1], [20, 3], [25, 2], [31, 1],
             [32, 1], [33, 1], [34, 2], [40, 1], [3, 130], [65, 1], [66, 2]],
    "cfg": [[2, 9, 9], [3, 10, 6], [3, 6, 12], [4, 5, 8], [5, 8, 3], [6, 4, 5], [7, 5, 2], [8, 4, 4], [9, 2, 3], [10, 3, 3], [12, 2, 2],
            [13, 1, 2], [15, 2, 1], [17, 1, 1], [2, 17, 17], [3, 17, 2], [18, 2, 2], [33, 1, 1]],
}
for _k in DIMS:
    DIMS[_k].sort(key=lambda v: (K.esize(_k, v), v))
# ordinary sizes in large batches
WIDE = {
    "lc": [[2, 2], [3, 2], [5, 3], [6, 2]],
    "sm": [[2, 2, 2], [3, 3, 2], [4, 4, 1], [5, 3, 2]],
    "dep": [[2, 0, 1], [3, 0, 0], [3, 2, 1], [4, 0, 1], [4, 2, 0]],
    "tree": [[2, 2], [3, 2], [4, 1], [5, 2]],
    "cfg": [[3, 1, 2], [3, 2, 1], [4, 2, 2]],
}
PLAIN = ("normal", "normal", "sparse", "ties", "shift")
SCALES = {"flat": 0.0, "soft": 0.4, "mid": 2.0, "sharp": 12.0, "steep": 90.0, "cliff": 600.0}


def values(case, key="vseed"):
    kind, dims, B = case["kind"], case["dims"], case["B"]
    E = K.esize(kind, dims)
    rng = np.random.RandomState(case[key])
    v = rng.randn(B, E) * SCALES[case["scale"]]
    v = np.clip(np.round(v * 64) / 64, -2000, 2000)
    style = case["style"]
    if style == "sparse":
        v = v * (rng.rand(B, E) < 0.15)
    elif style == "ties":
        v = np.clip(np.round(v), -1, 1)
    elif style == "shift":
        v = v - 5.0 * SCALES[case["scale"]]
    elif style == "forb":
        lens = case["lens"] or [K.full_len(kind, dims)] * B
        hit = rng.rand(B, E) < 0.5
        for b in range(B):
            free = structure(kind, dims, lens[b], rng)[0].reshape(-1) > 0
            v[b, hit[b] & ~free] = K.NEG
    return v


# --------------------------------------------------------------------------
# random legal structures, and a membership test by direct reading


def structure(kind, dims, l, rng):
    "(event array, compact form) of a random legal structure."
    if kind == "lc":
        N, C = dims
        y = rng.randint(0, C, N)
        e = np.zeros((N - 1, C, C))
        for n in range(l - 1):
            e[n, y[n + 1], y[n]] = 1
        return e, [int(c) for c in y]
    if kind == "sm":
        N1, Kw, C = dims
        seq = [-1] * (N1 + 1)
        e = np.zeros((N1, Kw, C, C))
        n, c = 0, int(rng.randint(C))
        seq[0] = c
        while n < l - 1:
            k = int(rng.randint(1, min(Kw - 1, l - 1 - n) + 1))
            c2 = int(rng.randint(C))
            e[n, k, c2, c] = 1
            n, c = n + k, c2
            seq[n] = c
        return e, seq
    if kind == "dep":
        N, L, mr = dims
        heads = [0] * N

        def attach(i, j, h):
            "words i..j hang from h as any number of children"
            while i <= j:
                k = int(rng.randint(i, j + 1))
                one(i, k, h)
                i = k + 1

        def one(i, j, h):
            r = int(rng.randint(i, j + 1))
            heads[r] = h
            attach(i, r - 1, r + 1)
            attach(r + 1, j, r + 1)

        if mr:
            attach(0, l - 1, 0)
        else:
            one(0, l - 1, 0)
        e = np.zeros((N, N, L) if L else (N, N))
        for m in range(l):
            h = heads[m] - 1 if heads[m] else m
            if L:
                e[h, m, rng.randint(L)] = 1
            else:
                e[h, m] = 1
        return e, heads
    if kind == "tree":
        N, NT = dims
        e = np.zeros((N, N, NT))

        def go(i, j):
            e[i, j, rng.randint(NT)] = 1
            if i < j:
                k = int(rng.randint(i, j))
                go(i, k)
                go(k + 1, j)

        go(0, l - 1)
        return e, None
    if kind == "cfg":
        N, NT, T = dims
        S = NT + T
        terms, rules, roots = np.zeros((N, T)), np.zeros((NT, S, S)), np.zeros(NT)

        def go(i, j):
            if i == j:
                t = rng.randint(T)
                terms[i, t] = 1
                return NT + t
            a = rng.randint(NT)
            k = int(rng.randint(i, j))
            b, c = go(i, k), go(k + 1, j)
            rules[a, b, c] += 1
            return a

        roots[go(0, l - 1)] = 1
        return np.concatenate([terms.ravel(), rules.ravel(), roots.ravel()]), None
    raise KeyError(kind)


def why_illegal(kind, dims, l, vec):
    "None when vec is the event of one legal structure of length l, else a reason."
    vec = np.asarray(vec)
    if not np.array_equal(vec, vec.astype(bool).astype(vec.dtype)):
        return "not 0/1-valued"
    e = vec.reshape(K.event_shape(kind, dims))
    on = [tuple(int(i) for i in ix) for ix in np.argwhere(e > 0)]
    if kind == "lc":
        if len(on) != l - 1 or [p[0] for p in on] != list(range(l - 1)):
            return "not one transition per position"
        if any(a[1] != b[2] for a, b in zip(on, on[1:])):
            return "transitions do not connect"
        return None
    if kind == "sm":
        n, c = 0, None
        for s, k, c2, c1 in on:
            if s != n or k < 1 or (c is not None and c1 != c):
                return "segments do not connect"
            n, c = s + k, c2
        return None if n == l - 1 else "segments do not cover the item"
    if kind == "dep":
        head = {}
        for p in on:
            if p[1] in head or p[0] >= l or p[1] >= l:
                return "a word has two heads or lies outside the item"
            head[p[1]] = p[0]
        if len(head) != l:
            return "a word has no head"
        if not dims[2] and sum(h == m for m, h in head.items()) != 1:
            return "not exactly one root word"
        for m in range(l):
            seen, x = set(), m
            while head[x] != x:
                if x in seen:
                    return "cyclic"
                seen.add(x)
                x = head[x]
        arcs = [(min(h, m), max(h, m)) for m, h in head.items() if h != m]
        for a, b in arcs:
            for c, d in arcs:
                if a < c < b < d:
                    return "crossing arcs"
            for m, h in head.items():
                if h == m and a < m < b:
                    return "a root word is covered by an arc"
        return None
    if kind == "tree":
        spans = [(p[0], p[1]) for p in on]
        if len(spans) != 2 * l - 1 or len(set(spans)) != len(spans):
            return "wrong number of spans"
        S = set(spans)
        todo, seen = [(0, l - 1)], 0
        while todo:
            i, j = todo.pop()
            if (i, j) not in S:
                return "a needed span is missing"
            seen += 1
            if i < j:
                ks = [k for k in range(i, j) if (i, k) in S and (k + 1, j) in S]
                if len(ks) != 1:
                    return "no unique split"
                todo += [(i, ks[0]), (ks[0] + 1, j)]
        return None if seen == len(S) else "stray spans"
    raise KeyError(kind)


# --------------------------------------------------------------------------


class Huge:
    def __init__(self, case, key="vseed"):
        kind, dims, B = case["kind"], case["dims"], case["B"]
        self.case, self.kind, self.dims, self.B = case, kind, dims, B
        self.E = K.esize(kind, dims)
        v = values(case, key)
        lens = case["lens"]
        self.lens = [K.full_len(kind, dims)] * B if lens is None else list(lens)
        self.dtype = {"f32": torch.float32, "bf16": torch.bfloat16}.get(case["dtype"], torch.float64)
        t = torch.tensor(v, dtype=self.dtype)
        self.t = t
        self.phi = t.double().numpy().copy()
        lay = case.get("layout", "c")
        if kind == "cfg":
            self.x = tuple(K.lay_out(p, lay) for p in K.split_cfg(t, dims))
        else:
            self.x = K.lay_out(t.reshape((B,) + K.event_shape(kind, dims)), lay)
        self.lt = None if lens is None else torch.tensor(lens, dtype=torch.int32 if case["vseed"] % 4 == 3 else torch.long)
        self._it = {}

    f32 = property(lambda s: s.dtype != torch.float64)

    def items(self):
        return range(self.B)

    def judged(self):
        "Items compared with the reference (all, or a spread when the batch is large)."
        if self.B <= 6:
            return list(range(self.B))
        return sorted({0, 1, self.B // 3, self.B // 2, self.B - 2, self.B - 1})

    def dist(self):
        return sut(K.make, self.kind, self.dims, self.x, self.lt)

    def item(self, b):
        if b not in self._it:
            sh = K.event_shape(self.kind, self.dims)
            self._it[b] = refvec.Item(self.kind, self.dims, sh, self.phi[b], self.lens[b], K.split_cfg)
        return self._it[b]

    def scale(self, b):
        p = self.phi[b]
        p = p[p > -1e8]
        # every partial sum is at most (largest potential + log of the choices) per word
        return 1.0 + 2.0 * self.lens[b] * (float(np.abs(p).max() if p.size else 0.0) + float(np.log(1 + self.E)))

    def tol(self, b):
        if self.dtype == torch.bfloat16:
            return 0.004 * (4 + self.lens[b] ** 0.5) * self.scale(b)
        return (2e-9 if not self.f32 else 1e-5) * self.scale(b)

    def ptol(self, b):
        "Tolerance for probabilities."
        return min(0.3, (1e-8 if not self.f32 else 2e-5) * max(1.0, self.scale(b) / 4))

    def labels(self):
        c = self.case
        out = ["kind:" + self.kind, "scale:" + c["scale"], "style:" + c["style"], c["dtype"]]
        if self.B > 6:
            out.append("large-batch")
        if min(self.lens) < K.full_len(self.kind, self.dims):
            out.append("padded")
        if c["layout"] != "c":
            out.append("layout:" + c["layout"])
        if c["scale"] == "flat":
            out.append("trivial:zero-potentials")
        return out


@st.composite
def huge_case(draw, kinds=tuple(K.KINDS), scales=tuple(SCALES), styles=("normal", "normal", "sparse", "ties", "shift", "forb"),
              dtypes=("f64", "f64", "f32"), layouts=("c", "c", "rev", "grad"), max_e=10 ** 9, two=False, wide=True, max_len=10 ** 9, min_len=0):
    kind = draw(st.sampled_from(list(kinds)))
    if wide and draw(st.integers(0, 3)) == 3:
        dims = draw(st.sampled_from(WIDE[kind]))
        B = draw(st.sampled_from([7, 8, 9, 16, 17, 32, 33, 40, 65, 129, 130]))
    else:
        tab = [d for d in DIMS[kind] if K.esize(kind, d) <= max_e and min_len <= K.full_len(kind, d) <= max_len]
        if draw(st.integers(0, 2)) == 2:
            tab = tab[-max(1, len(tab) // 3):]
        dims = draw(st.sampled_from(tab))
        B = draw(st.integers(1, 3))
    full = K.full_len(kind, dims)
    lens = None
    if draw(st.booleans()):
        lo = min(K.min_len(kind), full)
        near = draw(st.booleans())
        lens = [full - draw(st.integers(0, min(3, full - lo) if near else full - lo)) for _ in range(B)]
        if K.needs_full(kind):
            lens[draw(st.integers(0, B - 1))] = full
    style = draw(st.sampled_from(list(styles)))
    if kind == "cfg" and style == "forb":
        style = "normal"
    ok = [s for s in scales if SCALES[s] * (8 if style == "shift" else 4) * full < 2.5e4]
    return dict(
        kind=kind, dims=dims, B=B, lens=lens, style=style,
        scale=draw(st.sampled_from(ok)),
        dtype=draw(st.sampled_from(list(dtypes))),
        layout=draw(st.sampled_from(list(layouts))),
        vseed=draw(st.integers(0, 10 ** 6)),
        **({"vseed2": draw(st.integers(0, 10 ** 6))} if two else {}),
    )


# --------------------------------------------------------------------------
# checks, one per quantity


def partition(case):
    h = Huge(case)
    v = judge.vector(sut(lambda: h.dist().partition), h, "log-partition")
    for b in h.judged():
        judge.close(v[b], h.item(b).logZ, h.tol(b), "log-partition of item %d (length %d)" % (b, h.lens[b]))
    return h.labels()


def span_marginals(phi, dims, l):
    "Posterior of (width - 1, start, label): derivatives of the log-partition by an extra score per span."
    N, NT, T = dims
    t, r, o = (torch.tensor(p) for p in K.split_cfg(phi, dims))
    extra = torch.zeros(N, N, NT, dtype=torch.float64, requires_grad=True)
    low = torch.full((T,), -1e30, dtype=torch.float64)
    ins = {}
    for i in range(l):
        ins[i, i] = torch.cat([low.new_full((NT,), -1e30), t[i]])
    for w in range(1, l):
        for i in range(l - w):
            left = torch.stack([ins[i, k] for k in range(i, i + w)])
            right = torch.stack([ins[k + 1, i + w] for k in range(i, i + w)])
            pair = torch.logsumexp(left[:, :, None] + right[:, None, :], 0)
            ins[i, i + w] = torch.cat([torch.logsumexp((r + pair).reshape(NT, -1), 1) + extra[w, i], low])
    z = torch.logsumexp(ins[0, l - 1][:NT] + o, 0)
    return torch.autograd.grad(z, extra)[0].numpy()


def marginals(case):
    h = Huge(case)
    raw = sut(lambda: h.dist().marginals)
    m = judge.event_tensor(raw, h, "marginals")
    if h.kind == "cfg":
        N, NT, T = h.dims
        expect(len(raw) == 4 and tuple(raw[3].shape) == (h.B, N, N, NT), "span marginals have shape %s", tuple(raw[3].shape))
        got = raw[3].detach().double().numpy()
        for b in h.judged():
            want = np.roll(span_marginals(h.phi[b], h.dims, h.lens[b]), -1, 0)
            judge.close_array(got[b], want, h.ptol(b), "span marginals of item %d (length %d)" % (b, h.lens[b]))
    for b in h.judged():
        t = h.ptol(b) * (h.lens[b] if h.kind == "cfg" else 1)
        judge.close_array(m[b], h.item(b).marg, t, "marginals of item %d (length %d)" % (b, h.lens[b]))
    return h.labels()


def best(case):
    h = Huge(case)
    d = h.dist()
    mx = judge.vector(sut(lambda: d.max), h, "max")
    am = judge.event_tensor(sut(lambda: d.argmax), h, "argmax")
    for b in h.judged():
        it = h.item(b)
        judge.close(mx[b], it.max, h.tol(b), "max of item %d (length %d)" % (b, h.lens[b]))
        judge.close(float(am[b] @ h.phi[b]), it.max, 2 * h.tol(b), "score of the argmax of item %d" % b)
        member(h, b, am[b], "argmax")
    return h.labels()


def member(h, b, vec, what):
    if h.kind != "cfg":
        r = why_illegal(h.kind, h.dims, h.lens[b], vec)
        expect(r is None, "%s of item %d (length %d) is not a legal structure: %s", what, b, h.lens[b], r)
        return
    expect(np.array_equal(vec, np.round(vec)) and vec.min() >= 0, "%s of item %d is not integral", what, b)
    t, r, o = K.split_cfg(vec, h.dims)
    l = h.lens[b]
    expect((t[:l].sum(1) == 1).all() and not t[l:].any(), "%s of item %d: not one terminal per word", what, b)
    expect(r.sum() == l - 1 and o.sum() == 1, "%s of item %d: not %d rules and one root", what, b, l - 1)
    NT = h.dims[1]
    used = r.sum((0, 2)) + r.sum((0, 1))  # how often each symbol is a child
    made = r.sum((1, 2))  # how often each nonterminal is rewritten
    expect(np.array_equal(used[:NT] + o, made) and np.array_equal(used[NT:], t.sum(0)),
           "%s of item %d: rule, root and terminal counts do not fit together", what, b)


def entropies(case):
    h = Huge(case)
    d = h.dist()
    ent = judge.vector(sut(lambda: d.entropy), h, "entropy")
    f = 3 if not h.f32 else 10
    for b in h.judged():
        judge.close(ent[b], h.item(b).entropy, f * h.tol(b), "entropy of item %d (length %d)" % (b, h.lens[b]))
    if h.kind != "cfg":
        h2 = Huge(case, "vseed2")
        d2 = h2.dist()
        ce = judge.vector(sut(d.cross_entropy, d2), h, "cross-entropy")
        kl = judge.vector(sut(d.kl, d2), h, "KL")
        for b in h.judged():
            t = f * (h.tol(b) + h2.tol(b))
            judge.close(ce[b], h.item(b).cross_entropy(h2.item(b)), t, "cross-entropy of item %d (length %d)" % (b, h.lens[b]))
            judge.close(kl[b], h.item(b).kl(h2.item(b)), t, "KL of item %d (length %d)" % (b, h.lens[b]))
    return h.labels()


def log_prob(case):
    h = Huge(case)
    rng = np.random.RandomState(case["vseed"] + 1)
    S = case["S"]
    ev = np.stack([[structure(h.kind, h.dims, h.lens[b], rng)[0].reshape(-1) for b in h.items()] for _ in range(S)])
    x = torch.tensor(ev).reshape((S, h.B) + K.event_shape(h.kind, h.dims))
    v = judge.vector(sut(h.dist().log_prob, x), h, "log-probability", (S,))
    for b in h.judged():
        for i in range(S):
            judge.close(v[i, b], float(ev[i, b] @ h.phi[b]) - h.item(b).logZ, 2 * h.tol(b), "log-probability of sample %d in item %d" % (i, b))
    return h.labels()


def samples(case):
    h = Huge(case)
    n = case["S"]
    s = judge.event_tensor(sut(h.dist().sample, (n,)), h, "samples", (n,))
    for b in h.judged():
        for i in range(n):
            member(h, b, s[i, b], "sample %d" % i)
        m = h.item(b).marg
        c = s[:, b].sum(0)
        for e in np.nonzero((m > 1e-7) | (c > 0))[0]:
            expect(
                not stat.implausible(int(c[e]), n, min(max(float(m[e]), 0.0), 1.0), 1e-3 if h.f32 else 1e-6),
                "item %d: part %d of marginal %.6f appeared in %d of %d samples", b, e, m[e], int(c[e]), n,
            )
    return h.labels()


def counts(case):
    h = Huge(dict(case, dtype="f64"))
    v = judge.vector(sut(lambda: h.dist().count), h, "count")
    for b in h.judged():
        w = float(K.count(h.kind, h.dims, h.lens[b]))
        judge.close(v[b], w, 1e-9 * max(1, w), "count of item %d (length %d)" % (b, h.lens[b]))
    return [x for x in h.labels() if not x.startswith("trivial")]


def gradient(case):
    "Gradient of a mixture of log-partition, entropy and marginals."
    h = Huge(dict(case, dtype="f64"))
    x = h.t.clone().requires_grad_(True)
    if h.kind == "cfg":
        px = tuple(p.contiguous() for p in K.split_cfg(x * 1.0, h.dims))
    else:
        px = (x * 1.0).reshape((h.B,) + K.event_shape(h.kind, h.dims))
    d = sut(K.make, h.kind, h.dims, px, h.lt)
    rng = np.random.RandomState(case["vseed"] + 3)
    w = torch.tensor(rng.randint(-4, 5, (h.B, h.E)) / 4.0)
    q = case["q"]
    if q == "partition":
        val = sut(lambda: d.partition).sum()
    elif q == "entropy":
        val = sut(lambda: d.entropy).sum()
    else:
        m = sut(lambda: d.marginals)
        flat = torch.cat([p.reshape(h.B, -1) for p in m[:3]], -1) if h.kind == "cfg" else m.reshape(h.B, -1)
        val = (flat * w).sum()
    g = sut(lambda: torch.autograd.grad(val, x)[0]).numpy()
    for b in h.judged()[:3]:
        it = h.item(b)
        if not it.z.requires_grad:
            want = np.zeros(h.E)
        elif q == "partition":
            want = it.marg
        else:
            o = it.z - (it.grad_graph() * it.x).sum() if q == "entropy" else (it.grad_graph() * w[b]).sum()
            want = torch.autograd.grad(o, it.x)[0].numpy()
        t = 1e-9 * h.scale(b) ** 2 * max(1, h.lens[b])
        judge.close_array(g[b], want, t, "gradient of the %s of item %d (length %d)" % (q, b, h.lens[b]))
    return h.labels() + ["q:" + q]


@st.composite
def with_s(draw, base, choices):
    c = draw(base)
    c["S"] = draw(st.sampled_from(list(choices)))
    return c


@st.composite
def with_q(draw, base, choices):
    c = draw(base)
    c["q"] = draw(st.sampled_from(list(choices)))
    return c
