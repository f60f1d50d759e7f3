"""C07: exact sampling."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import huge, judge, kinds as K, oracle, stat
from ..runner import Sub
from ..sut import expect, sut

ID = "C07"
QUICK = 1.5
RULE = (
    "legality cases are a model case, a sample count and a gradient mode; frequency cases "
    "replicate one item over the batch and test every structure and part frequency and "
    "coincidences between samples and between items with exact binomial tails (1e-10 each); "
    "non-trivial when some item has at least two structures and not all potentials are zero"
)
ASSUMPTIONS = ["the tensor library's generator is a good source of randomness"]


def draw_samples(d, n, nograd):
    if nograd:
        with torch.no_grad():
            return sut(d.sample, (n,))
    return sut(d.sample, torch.Size([n]))


def legality(case):
    bt = K.Built(case)
    n = case["n"]
    d = bt.dist()
    if case.get("order"):
        sut(lambda: getattr(d, case["order"]))
    s = judge.event_tensor(draw_samples(d, n, case["nograd"]), bt, "samples", (n,))
    for i in range(n):
        for b in bt.items():
            judge.legal(s[i, b], bt, b, "sample %d" % i)
    return judge.base_labels(case, bt) + ["nograd" if case["nograd"] else "grad", "samples:%s" % ("<=10" if n <= 10 else ">10")]


def ids_of(s, M, what):
    "Structure index of every row of s (n, E); Violation if not legal."
    key = {}
    for i, r in enumerate(M):
        key.setdefault(r.tobytes(), i)
    out = np.zeros(len(s), dtype=np.int64)
    for i, r in enumerate(s):
        j = key.get(np.ascontiguousarray(r).tobytes())
        expect(j is not None, "%s: a sample is not a legal structure", what)
        out[i] = j
    return out, sorted(set(key.values()))


def group_probs(M, p):
    "Probability of each distinct event row (chain items of length 1 share one row)."
    key, q = {}, {}
    for i, r in enumerate(M):
        j = key.setdefault(r.tobytes(), i)
        q[j] = q.get(j, 0.0) + p[i]
    return q


def judge_counts(ids, q, M, marg, what, slack):
    n = len(ids)
    for j, pj in q.items():
        c = int(np.sum(ids == j))
        expect(
            not stat.implausible(c, n, min(pj, 1.0), slack),
            "%s: a structure of probability %.6f was drawn %d times in %d", what, pj, c, n,
        )
    parts = M[ids].sum(0)
    for e in np.nonzero((marg > 0) | (parts > 0))[0]:
        expect(
            not stat.implausible(int(parts[e]), n, min(max(marg[e], 0.0), 1.0), slack),
            "%s: part %d of marginal %.6f appeared %d times in %d", what, e, marg[e], int(parts[e]), n,
        )


def judge_pairs(a, b, q, what):
    coll = sum(v * v for v in q.values())
    k, n = int(np.sum(a == b)), len(a)
    expect(
        not stat.implausible(k, n, coll, 1e-4),
        "%s coincide %d times in %d, expected a fraction %.4f: not independent", what, k, n, coll,
    )


def frequency(case):
    one = dict(case)
    one["layout"] = "c"
    base = K.Built(one)
    R, S = case["reps"], case["n"]
    reps = [v for v in range(base.B) for _ in range(R)]
    x = base.x[reps].clone()
    lens = None if base.lt is None else base.lt[reps]
    d = sut(K.make, base.kind, base.dims, x, lens)
    s = draw_samples(d, S, False)
    expect(s.shape[:2] == (S, R * base.B), "samples have shape %s", tuple(s.shape))
    s = s.detach().double().reshape(S, base.B, R, -1).numpy()
    e = d if case["again"] == "same" else sut(K.make, base.kind, base.dims, x.detach().clone(), lens)
    s2 = draw_samples(e, S, case["again"] == "new").detach().double().reshape(S, base.B, R, -1).numpy()
    slack = 1e-4 if base.f32 else 1e-6
    for b in base.items():
        ex = base.exact(b)
        ids, _ = ids_of(s[:, b].reshape(S * R, -1), ex.M, "item %d" % b)
        q = group_probs(ex.M, ex.p)
        judge_counts(ids, q, ex.M, ex.marg, "item %d" % b, slack)
        ids = ids.reshape(S, R)
        lag = 1 + case["lag"] % (S - 1)
        left = [i for i in range(S - lag) if (i // lag) % 2 == 0]
        judge_pairs(ids[left].ravel(), ids[[i + lag for i in left]].ravel(), q, "samples %d apart of item %d" % (lag, b))
        h = R // 2
        judge_pairs(ids[:, :h].ravel(), ids[:, h:2 * h].ravel(), q, "samples of different batch items")
        judge_pairs(ids[:, 0:2 * h:2].ravel(), ids[:, 1:2 * h:2].ravel(), q, "samples of neighbouring batch items")
        ids2 = ids_of(s2[:, b].reshape(S * R, -1), ex.M, "item %d" % b)[0].reshape(S, R)
        judge_pairs(ids.ravel(), ids2.ravel(), q, "samples of separate calls of item %d" % b)
        # every slot on its own
        for i in range(S):
            for j, pj in q.items():
                c = int(np.sum(ids[i] == j))
                expect(not stat.implausible(c, R, min(pj, 1.0), slack), "sample %d of item %d: structure of probability %.5f drawn %d/%d times", i, b, pj, c, R)
    return judge.base_labels(case, base)


ROOMY = {"lc": [[15, 3], [22, 2], [5, 40]], "sm": [[14, 4, 3], [12, 3, 4]], "dep": [[11, 0, 1], [8, 3, 1], [11, 0, 0]], "tree": [[8, 4], [9, 3]]}


def many(case):
    "Equal scores and millions of structures: equal samples are next to impossible, however many are drawn."
    kind, dims, B, S = case["kind"], case["dims"], case["B"], case["S"]
    x = torch.full((B,) + K.event_shape(kind, dims), case["value"], dtype=torch.float64)
    d = sut(K.make, kind, dims, x, None)
    s = sut(d.sample, (S,))
    expect(tuple(s.shape) == (S,) + tuple(x.shape), "samples have shape %s", tuple(s.shape))
    s = s.detach().numpy().reshape(S * B, -1)
    full = K.full_len(kind, dims)
    for i in sorted({0, S * B - 1} | set(np.random.RandomState(S).randint(0, S * B, 30).tolist())):
        why = huge.why_illegal(kind, dims, full, s[i])
        expect(not why, "sample %d of item %d is not a legal structure: %s", i // B, i % B, why)
    n, total = S * B, K.count(kind, dims, full)
    mean = n * (n - 1) / 2.0 / total
    # the number of equal pairs is close to a Poisson variable
    tail, term, t = 1.0, np.exp(-mean), 0
    while tail > 1e-12:
        tail -= term
        t += 1
        term *= mean / t
    kinds, times = np.unique(np.packbits(s.astype(np.uint8), axis=1), axis=0, return_counts=True)
    pairs = int((times * (times - 1) // 2).sum())
    expect(pairs <= t + 3, "%d pairs among %d samples of %d equally likely structures are equal, %.3f expected", pairs, n, total, mean)
    return ["kind:" + kind, "S:%d" % S]


@st.composite
def many_case(draw):
    kind = draw(st.sampled_from(sorted(ROOMY)))
    return {"kind": kind, "dims": draw(st.sampled_from(ROOMY[kind])), "B": draw(st.integers(1, 3)), "value": draw(st.sampled_from([0.0, 1.5, -3.0])),
            "S": draw(st.sampled_from([100, 110, 129, 200, 257, 300, 520]))}


@st.composite
def legality_case(draw):
    c = draw(K.model_case(kinds=K.TENSOR_KINDS, layouts=("c", "c", "grad", "rev", "step", "nonleaf"), forb=True))
    c["n"] = draw(st.sampled_from([1, 2, 3, 9, 10, 11, 20, 21, 34, 51]))
    c["nograd"] = draw(st.booleans())
    o = draw(st.sampled_from([None, None, "marginals", "argmax"]))
    if o:
        c["order"] = o
    return c


@st.composite
def frequency_case(draw):
    c = draw(K.model_case(kinds=K.TENSOR_KINDS, table="tiny", max_b=2, profiles=("jitter", "tiny", "dyadic", "ties")))
    c["n"] = draw(st.sampled_from([10, 20, 25, 32]))
    c["reps"] = 40
    c["again"] = draw(st.sampled_from(["same", "new"]))
    c["lag"] = draw(st.integers(0, 40))
    return c


def subs(tier):
    return [
        Sub("legal", legality_case(), legality, 1200, 20000),
        Sub("frequency", frequency_case(), frequency, 300, 6000),
        Sub("many", many_case(), many, 30, 400),
        Sub("huge", huge.with_s(huge.huge_case(kinds=K.TENSOR_KINDS, max_e=2000), (10, 25, 60, 110)), huge.samples, 100, 800),
    ]
