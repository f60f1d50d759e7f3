"""C11: HMM and HSMM adapters."""
import itertools

import numpy as np
import torch
from hypothesis import strategies as st

from .. import judge, kinds as K, oracle, refvec
from ..runner import Sub
from ..sut import expect, sut, ts

ID = "C11"
QUICK = 2.5
RULE = (
    "a case is a set of log-score tables (not symmetric, not necessarily normalised), "
    "observations or segment emissions, batch and lengths; non-trivial when there are at "
    "least two states and the tables are not all zero"
)


def tables(case, sizes):
    n = sum(int(np.prod(s)) for s in sizes)
    v = K.decode(case["vals"], n, case["prof"])
    out, i = [], 0
    dt = torch.float32 if case["dtype"] == "f32" else torch.float64
    for s in sizes:
        m = int(np.prod(s))
        t = v[i:i + m].reshape(s)
        if case["norm"] is not None:
            t = t - np.log(np.exp(t - t.max()).sum(axis=case["norm"], keepdims=True)) - t.max()
        out.append(torch.tensor(t, dtype=dt))
        i += m
    return out


def labs(case):
    out = [case["prof"], case["dtype"]]
    if case["C"] < 2:
        out.append("trivial:one-state")
    if not case["vals"].strip("0") and case["prof"] != "jitter":
        out.append("trivial:zero-tables")
    return out


def hmm_tables(case):
    C, V = case["C"], case["V"]
    tr, em, init = tables(dict(case, norm=0 if case["norm"] else None), [(C, C), (V, C), (C,)])
    return tr, em, init


def hmm(case):
    C, V, N, B = case["C"], case["V"], case["N"], case["B"]
    tr, em, init = hmm_tables(case)
    obs = torch.tensor(case["obs"], dtype=torch.long)
    lens = case["lens"]
    use = lens or [N] * B
    lt = None if lens is None else torch.tensor(lens)
    before = [t.clone() for t in (tr, em, init, obs)]
    d = sut(lambda: ts().HMM(tr, em, init, obs, lengths=lt))
    z = sut(lambda: d.partition)
    m = sut(lambda: d.marginals)
    mx = sut(lambda: d.max)
    for a, b in zip(before, (tr, em, init, obs)):
        expect(torch.equal(a, b), "building the model changed a table passed in")
    expect(tuple(z.shape) == (B,) and tuple(m.shape) == (B, N - 1, C, C), "wrong result shapes")
    A, E, I = (t.double().numpy() for t in (tr, em, init))
    f32 = case["dtype"] == "f32"
    for b in range(B):
        l, o = use[b], case["obs"][b]
        paths = list(itertools.product(range(C), repeat=l))
        s = np.array([
            I[p[0]] + E[o[0], p[0]] + sum(A[p[n], p[n - 1]] + E[o[n], p[n]] for n in range(1, l))
            for p in paths
        ])
        Z = oracle.lse(s)
        tol = (1e-4 if f32 else 1e-8) * (1 + np.abs(s).max())
        judge.close(z[b].item(), Z, tol, "log-likelihood of item %d" % b)
        judge.close(mx[b].item(), s.max(), tol, "best joint log-score of item %d" % b)
        want = np.zeros((N - 1, C, C))
        pr = np.exp(s - Z)
        ev = np.zeros((len(paths), N - 1, C, C))
        for i, p in enumerate(paths):
            for n in range(1, l):
                want[n - 1, p[n], p[n - 1]] += pr[i]
                ev[i, n - 1, p[n], p[n - 1]] = 1
        judge.close_array(m[b].detach().double().numpy(), want, tol, "pairwise posteriors of item %d" % b)
        if B == 1:
            lp = sut(d.log_prob, torch.tensor(ev).unsqueeze(1))[:, 0].detach().double().numpy()
            judge.close_array(lp, s - Z, 3 * tol, "path log-probabilities")
    return labs(case) + (["padded"] if min(use) < N else [])


def hmm_long(case):
    "Forward algorithm and Viterbi as oracle on long observation sequences."
    C, V, N, B = case["C"], case["V"], case["N"], case["B"]
    tr, em, init = hmm_tables(case)
    rng = np.random.RandomState(case["oseed"])
    o = rng.randint(0, V, (B, N))
    d = sut(lambda: ts().HMM(tr, em, init, torch.tensor(o)))
    z, mx, am = sut(lambda: d.partition), sut(lambda: d.max), sut(lambda: d.argmax)
    seq = sut(d.from_event, am)[0]
    A, E, I = (t.double().numpy() for t in (tr, em, init))
    for b in range(B):
        a = I + E[o[b, 0]]
        v = a.copy()
        for n in range(1, N):
            a = np.array([oracle.lse(A[j] + a) for j in range(C)]) + E[o[b, n]]
            v = np.array([np.max(A[j] + v) for j in range(C)]) + E[o[b, n]]
        tol = (3e-5 if case["dtype"] == "f32" else 1e-9) * 10 * N * (1 + max(np.abs(x).max() for x in (A, E, I)))
        judge.close(z[b].item(), oracle.lse(a), tol, "log-likelihood of item %d" % b)
        judge.close(mx[b].item(), v.max(), tol, "best joint log-score of item %d" % b)
        p = seq[b].tolist()
        s = I[p[0]] + E[o[b, 0], p[0]] + sum(A[p[n], p[n - 1]] + E[o[b, n], p[n]] for n in range(1, N))
        judge.close(s, v.max(), tol, "joint log-score of the decoded path of item %d" % b)
    return labs(case)


def hsmm(case):
    C, Kd, N, B = case["C"], case["K"], case["N"], case["B"]
    ish = (B, C) if case["per_item"] else (C,)
    init, zz, zl, em = tables(dict(case, norm=None), [ish, (C, C), (C, Kd), (B, N, Kd, C)])
    before = [t.clone() for t in (init, zz, zl, em)]
    edges = sut(lambda: ts().SemiMarkov.hsmm(init, zz, zl, em))
    for a, b in zip(before, (init, zz, zl, em)):
        expect(torch.equal(a, b), "the adapter changed a table passed in")
    expect(tuple(edges.shape) == (B, N, Kd, C, C), "potentials have shape %s", tuple(edges.shape))
    expect(edges.dtype == em.dtype, "potentials have dtype %s", edges.dtype)
    I, Zt, L, E = (t.double().numpy() for t in (init, zz, zl, em))
    got = edges.double().numpy()
    want = np.zeros((B, N, Kd, C, C))
    for b in range(B):
        ib = I[b] if case["per_item"] else I
        for n in range(N):
            for k in range(Kd):
                for c2 in range(C):
                    for c1 in range(C):
                        want[b, n, k, c2, c1] = Zt[c1, c2] + L[c2, k] + E[b, n, k, c2] + (ib[c1] if n == 0 else 0.0)
    judge.close_array(got, want, 1e-4 if case["dtype"] == "f32" else 1e-9, "segment potentials")
    # every segmentation, scored from the tables
    if oracle.sm_count(N, Kd, C, N + 1) <= 1500:
        z = sut(lambda: ts().SemiMarkovCRF(edges).partition)
        M = oracle.sm_support(N, Kd, C, N + 1)
        for b in range(B):
            judge.close(
                z[b].item(), oracle.lse(M @ want[b].ravel()),
                (1e-3 if case["dtype"] == "f32" else 1e-7) * 10, "log-likelihood of item %d" % b)
    return labs(case) + (["per-item-init"] if case["per_item"] else [])


def seeded(seed, sizes, scale, dt):
    rng = np.random.RandomState(seed)
    return [torch.tensor(np.round(rng.randn(*s) * scale * 64) / 64, dtype=dt) for s in sizes]


def hmm_wide(case):
    "Many states, symbols, positions and items, with lengths."
    C, V, N, B = case["C"], case["V"], case["N"], case["B"]
    dt = torch.float32 if case["dtype"] == "f32" else torch.float64
    tr, em, init = seeded(case["seed"], [(C, C), (V, C), (C,)], case["scale"], dt)
    rng = np.random.RandomState(case["seed"] + 1)
    o = rng.randint(0, V, (B, N))
    o[0, -1] = V - 1
    lens = case["lens"] or [N] * B
    d = sut(lambda: ts().HMM(tr, em, init, torch.tensor(o), lengths=None if case["lens"] is None else torch.tensor(lens)))
    z, mx, am, m = sut(lambda: d.partition), sut(lambda: d.max), sut(lambda: d.argmax), sut(lambda: d.marginals)
    seq = sut(d.from_event, am)[0]
    A, E, I = (t.double().numpy() for t in (tr, em, init))

    def lse(x):
        t = x.max(1)
        return t + np.log(np.exp(x - t[:, None]).sum(1))

    for b in (range(B) if B < 5 else (0, 1, B // 2, B - 1)):
        l = lens[b]
        a = I + E[o[b, 0]]
        v, al = a.copy(), [a]
        for n in range(1, l):
            a = lse(A + a[None]) + E[o[b, n]]
            al.append(a)
            v = (A + v[None]).max(1) + E[o[b, n]]
        tol = (3e-5 if case["dtype"] == "f32" else 1e-9) * 10 * l * (1 + max(np.abs(x).max() for x in (A, E, I)))
        Z = oracle.lse(a)
        judge.close(z[b].item(), Z, tol, "log-likelihood of item %d" % b)
        judge.close(mx[b].item(), v.max(), tol, "best joint log-score of item %d" % b)
        p = seq[b].tolist()
        if l == N:
            s = I[p[0]] + E[o[b, 0], p[0]] + sum(A[p[n], p[n - 1]] + E[o[b, n], p[n]] for n in range(1, l))
            judge.close(s, v.max(), tol, "joint log-score of the decoded path of item %d" % b)
        want = np.zeros((N - 1, C, C))
        be = np.zeros(C)
        for n in range(l - 1, 0, -1):
            g = E[o[b, n]] + be
            want[n - 1] = np.exp(g[:, None] + A + al[n - 1][None, :] - Z)
            be = lse(A.T + g[None])
        judge.close_array(m[b].detach().double().numpy(), want, min(0.2, tol), "pairwise posteriors of item %d" % b)
    out = [case["dtype"]]
    if C < 2:
        out.append("trivial:one-state")
    return out + (["padded"] if min(lens) < N else [])


def hsmm_wide(case):
    C, Kd, N, B = case["C"], case["K"], case["N"], case["B"]
    dt = torch.float32 if case["dtype"] == "f32" else torch.float64
    init, zz, zl, em = seeded(case["seed"], [(B, C) if case["per_item"] else (C,), (C, C), (C, Kd), (B, N, Kd, C)], case["scale"], dt)
    edges = sut(lambda: ts().SemiMarkov.hsmm(init, zz, zl, em))
    expect(tuple(edges.shape) == (B, N, Kd, C, C), "potentials have shape %s", tuple(edges.shape))
    I, Zt, L, E = (t.double().numpy() for t in (init, zz, zl, em))
    want = Zt.T[None, None, None] + L.T[None, None, :, :, None] + E[..., None] + np.zeros((B, N, Kd, C, C))
    want[:, 0] += I.reshape(-1, 1, 1, C)
    judge.close_array(edges.double().numpy(), want, (1e-4 if case["dtype"] == "f32" else 1e-9) * (1 + case["scale"]), "segment potentials")
    z = sut(lambda: ts().SemiMarkovCRF(edges).partition)
    for b in range(min(B, 3)):
        ref = refvec.sm(torch.tensor(want[b]), Kd, C, N + 1, refvec._lse).item()
        judge.close(z[b].item(), ref, (1e-4 if case["dtype"] == "f32" else 1e-9) * 10 * N * (1 + case["scale"] * 5), "log-likelihood of item %d" % b)
    return [case["dtype"]] + (["trivial:one-state"] if C < 2 else [])


@st.composite
def hmm_wide_case(draw):
    C, V, N = draw(st.sampled_from([(7, 6, 9), (8, 20, 4), (9, 40, 3), (16, 5, 5), (17, 60, 3), (20, 128, 2), (30, 129, 3), (33, 9, 2), (40, 300, 2),
                                    (2, 256, 20), (3, 257, 9), (2, 700, 65), (3, 50, 100), (4, 7, 129), (5, 12, 40), (65, 3, 2), (2, 4, 258), (3, 5, 300), (2, 3, 515), (130, 4, 2)]))
    B = draw(st.sampled_from([1, 2, 3, 9, 17]))
    if N * C * C > 2000:
        B = min(B, 3)
    lens = None
    if draw(st.booleans()):
        lens = [draw(st.integers(2, N)) for _ in range(B)]
        lens[draw(st.integers(0, B - 1))] = N
    return {"C": C, "V": V, "N": N, "B": B, "lens": lens, "scale": draw(st.sampled_from([0.3, 2.0, 10.0])),
            "dtype": draw(st.sampled_from(["f64", "f64", "f32"])), "seed": draw(st.integers(0, 10 ** 6))}


@st.composite
def hsmm_wide_case(draw):
    C, Kd, N = draw(st.sampled_from([(7, 3, 4), (9, 4, 3), (17, 2, 3), (33, 2, 2), (5, 9, 6), (2, 17, 9), (3, 12, 20), (2, 3, 33), (1, 5, 65), (4, 6, 30), (2, 3, 130), (1, 3, 260)]))
    return {"C": C, "K": Kd, "N": N, "B": draw(st.sampled_from([1, 2, 3, C, 9])), "per_item": draw(st.booleans()),
            "scale": draw(st.sampled_from([0.3, 2.0, 10.0])), "dtype": draw(st.sampled_from(["f64", "f64", "f32"])),
            "seed": draw(st.integers(0, 10 ** 6))}


@st.composite
def hmm_case(draw, long=False):
    C = draw(st.integers(1, 4 if not long else 5))
    V = draw(st.integers(1, 5))
    if long:
        N = draw(st.sampled_from([2, 3, 5, 8, 9, 16, 17, 18, 33, 50, 65]))
    else:
        N = draw(st.sampled_from([n for n in range(2, 7) if C ** n <= 300]))
    B = draw(st.integers(1, 3))
    n = C * C + V * C + C
    c = {
        "C": C, "V": V, "N": N, "B": B, "lens": None,
        "prof": draw(st.sampled_from(["dyadic", "jitter", "neg", "tiny"])),
        "dtype": draw(st.sampled_from(["f64", "f64", "f32"])),
        "norm": draw(st.booleans()),
        "vals": draw(st.binary(min_size=n, max_size=n)).hex(),
    }
    if long:
        c["oseed"] = draw(st.integers(0, 10 ** 6))
    else:
        c["obs"] = [[draw(st.integers(0, V - 1)) for _ in range(N)] for _ in range(B)]
        if draw(st.booleans()):
            c["lens"] = [draw(st.integers(2, N)) for _ in range(B)]
            c["lens"][draw(st.integers(0, B - 1))] = N
    return c


@st.composite
def hsmm_case(draw):
    C, Kd = draw(st.integers(1, 4)), draw(st.integers(2, 5))
    N, B = draw(st.integers(1, 5)), draw(st.integers(1, 3))
    per = draw(st.booleans())
    n = (B * C if per else C) + C * C + C * Kd + B * N * Kd * C
    return {
        "C": C, "K": Kd, "N": N, "B": B, "per_item": per,
        "prof": draw(st.sampled_from(["dyadic", "jitter", "neg", "tiny"])),
        "dtype": draw(st.sampled_from(["f64", "f64", "f32"])),
        "vals": draw(st.binary(min_size=n, max_size=n)).hex(),
    }


def subs(tier):
    return [
        Sub("hmm", hmm_case(), hmm, 1500, 24000),
        Sub("hmm-long", hmm_case(long=True), hmm_long, 300, 4000),
        Sub("hsmm", hsmm_case(), hsmm, 1000, 16000),
        Sub("hmm-wide", hmm_wide_case(), hmm_wide, 100, 1600),
        Sub("hsmm-wide", hsmm_wide_case(), hsmm_wide, 80, 1200),
    ]
