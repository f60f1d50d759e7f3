"""C20: autoregressive sampling, with and without replacement."""
import itertools

import numpy as np
import torch
from hypothesis import strategies as st

from .. import stat
from ..armodel import Spec, big_spec, labels, spec_case
from ..runner import Sub
from ..sut import expect, sut

ID = "C20"
QUICK = 1.5
RULE = (
    "frequency cases draw 1500 samples from a history-dependent model and compare every "
    "sequence, every token position, pairs of samples and pairs of items with exact binomial "
    "tails (1e-10 each); without-replacement cases ask for up to all sequences; non-trivial "
    "when there are at least two classes"
)
ASSUMPTIONS = ["the tensor library's generator is a good source of randomness"]


def decode(x, shape, what):
    expect(tuple(x.shape) == shape, "%s have shape %s, expected %s", what, tuple(x.shape), shape)
    a = x.detach().double().numpy()
    expect(np.isin(a, (0.0, 1.0)).all() and (a.sum(-1) == 1).all(), "%s are not one-hot sequences", what)
    return a.argmax(-1)


def call(f, n, nograd):
    if nograd:
        with torch.no_grad():
            return sut(f, (n,))
    return sut(f, torch.Size([n]))


def frequency(case):
    sp = Spec(case)
    d = sut(sp.dist)
    S = case["S"]
    seq = decode(call(d.sample, S, case["nograd"]), (S, sp.B, sp.N, sp.C), "samples")
    slack = 1e-4 if case["dtype"] == "f32" else 1e-6

    def encode(seq):
        code = np.zeros((S, sp.B), dtype=np.int64)
        for n in range(sp.N):
            code = code * sp.C + seq[:, :, n]
        return code

    code = encode(seq)
    e = d if case["again"] == "same" else sut(sp.dist)
    code2 = encode(decode(call(e.sample, S, case["nograd"]), (S, sp.B, sp.N, sp.C), "samples"))
    every = sp.sequences()
    prob = []
    for b in range(sp.B):
        tab = sp.table(b)
        p = np.exp(np.array([tab[s] for s in every]))
        prob.append(p)
        cnt = np.bincount(code[:, b], minlength=len(every))
        for i, s in enumerate(every):
            expect(not stat.implausible(int(cnt[i]), S, min(float(p[i]), 1.0), slack),
                   "item %d: sequence %s of probability %.5f drawn %d times in %d", b, s, p[i], int(cnt[i]), S)
        arr = np.array(every)
        for n in range(sp.N):
            for c in range(sp.C):
                q = float(p[arr[:, n] == c].sum())
                k = int((seq[:, b, n] == c).sum())
                expect(not stat.implausible(k, S, min(q, 1.0), slack),
                       "item %d: token %d at step %d has probability %.5f, drawn %d times in %d", b, c, n, q, k, S)
        coll = float((p * p).sum())
        lag = 1 + case["lag"] % (S - 1) if "lag" in case else 1000
        left = [i for i in range(S - lag) if (i // lag) % 2 == 0]
        k = int((code[left, b] == code[[i + lag for i in left], b]).sum())
        expect(not stat.implausible(k, len(left), min(coll, 1.0), 1e-4), "samples %d apart of item %d coincide %d times in %d, expected fraction %.4f", lag, b, k, len(left), coll)
        for what, x, y in (("neighbouring samples", code[0::2, b], code[1::2, b]), ("distant samples", code[: S // 2, b], code[S // 2:, b]),
                           ("samples of separate calls", code[:, b], code2[:, b])):
            m = min(len(x), len(y))
            k = int((x[:m] == y[:m]).sum())
            expect(not stat.implausible(k, m, min(coll, 1.0), 1e-4), "%s of item %d coincide %d times in %d, expected fraction %.4f", what, b, k, m, coll)
    for b in range(1, sp.B):
        coll = float((prob[b - 1] * prob[b]).sum())
        k = int((code[:, b - 1] == code[:, b]).sum())
        expect(not stat.implausible(k, S, min(coll, 1.0), 1e-4), "items %d and %d coincide %d times in %d, expected fraction %.4f", b - 1, b, k, S, coll)
    return labels(case)


def conditional(case):
    """Long sequences over many classes: given its own prefix, every token is a draw from a known
    distribution, so the number of tokens falling in a chosen half of the classes is a martingale
    sum, judged with Freedman's inequality (1e-10); the last class is judged the same way."""
    sp = Spec(case)
    d = sut(sp.dist)
    S = case["S"]
    seq = decode(call(d.sample, S, case["nograd"]), (S, sp.B, sp.N, sp.C), "samples")
    slack = 1e-4 if case["dtype"] == "f32" else 1e-6
    total = {}
    for b in range(sp.B):
        p = np.exp(sp.walk(b, seq[:, b]))
        took = np.take_along_axis(p, seq[:, b][..., None], 2)[..., 0]
        expect((took > 1e-12).all(), "item %d: a token of probability %.3g was drawn", b, took.min())
        half = np.random.RandomState(case["wseed"] + 2).rand(sp.N, sp.C) < 0.5
        order = np.argsort(-p, 2)
        likely = np.zeros_like(p, dtype=bool)
        np.put_along_axis(likely, order[..., : max(1, sp.C // 2)], True, 2)
        top = np.zeros_like(p, dtype=bool)
        np.put_along_axis(top, order[..., :1], True, 2)
        last = np.zeros_like(p, dtype=bool)
        last[..., -(sp.C // 4 + 1):] = True
        for what, A in (("random half", np.broadcast_to(half, p.shape)), ("likelier half", likely), ("top class", top), ("highest classes", last)):
            q = np.minimum((p * A).sum(2), 1.0)
            x = np.take_along_axis(A, seq[:, b][..., None], 2)[..., 0]
            dev, var = (x - q).sum(0), (q * (1 - q)).sum(0)
            for n in range(sp.N):
                freedman(dev[n], var[n], S * slack, "item %d step %d: tokens in the %s" % (b, n, what))
            t = total.setdefault(what, [0.0, 0.0, 0.0])
            t[0] += dev.sum()
            t[1] += var.sum()
            t[2] += S * sp.N * slack
    for what, (dev, var, sl) in total.items():
        freedman(dev, var, sl, "all steps and items: tokens in the %s" % what)
    return labels(case)


def freedman(dev, var, slack, what):
    L = np.log(2e10)
    bound = L / 3 + np.sqrt(L * L / 9 + 2 * L * var) + slack
    expect(abs(dev) <= bound, "%s exceed their expected number by %.1f (bound %.1f)", what, dev, bound)


def many_distinct(case):
    sp = Spec(case)
    K = min(case["K"], sp.C ** sp.N)
    d = sut(sp.dist)
    seq = decode(call(d.sample_without_replacement, K, case["nograd"]), (K, sp.B, sp.N, sp.C), "samples without replacement")
    for b in range(sp.B):
        expect(len({tuple(r) for r in seq[:, b].tolist()}) == K, "item %d: samples without replacement repeat a sequence", b)
    return labels(case) + ["without-replacement"]


def spread(case):
    "Equally likely sequences, millions of them: equal samples are next to impossible, however many are drawn."
    sp = Spec(case)
    d = sut(sp.dist)
    S = case["S"]
    seq = decode(call(d.sample, S, case["nograd"]), (S, sp.B, sp.N, sp.C), "samples")
    n, total = S * sp.B, float(sp.C) ** sp.N
    mean = n * (n - 1) / 2.0 / total
    tail, term, t = 1.0, np.exp(-mean), 0
    while tail > 1e-12:
        tail -= term
        t += 1
        term *= mean / t
    _, times = np.unique(seq.reshape(n, sp.N), axis=0, return_counts=True)
    pairs = int((times * (times - 1) // 2).sum())
    expect(pairs <= t + 3, "%d pairs among %d samples of %d equally likely sequences are equal, %.3f expected", pairs, n, total, mean)
    return labels(case) + ["S:%d" % S]


@st.composite
def spread_case(draw):
    c = draw(big_spec(scales=("flat",), normalize=True))
    c["B"] = min(c["B"], draw(st.sampled_from([1, 2, 3])))
    c["C"], c["N"] = draw(st.sampled_from([(2, 28), (5, 12), (300, 4), (17, 7)]))
    c["start"] %= c["C"]
    c["S"] = draw(st.sampled_from([70, 130, 257, 520, 1030, 2100]))
    c["nograd"] = draw(st.booleans())
    return c


@st.composite
def conditional_case(draw):
    c = draw(big_spec(scales=("soft", "mid", "mid", "sharp", "flat", "offset"), normalize=True))
    c["S"] = 300 if c["C"] * c["N"] * c["B"] < 600 else 40
    c["nograd"] = draw(st.booleans())
    return c


@st.composite
def many_distinct_case(draw):
    c = draw(big_spec())
    c["K"] = draw(st.sampled_from([1, 2, 5, 16, 17, 33, 60, 70, 130]))
    if c["K"] > 60:
        c["B"] = 1
        if c["N"] > 12:
            c["C"], c["N"], c["start"] = 6, 5, c["start"] % 6
    elif c["C"] * c["N"] * c["K"] * c["B"] > 40000:
        c["B"] = 1
    c["nograd"] = draw(st.booleans())
    return c


def distinct(case):
    sp = Spec(case)
    total = sp.C ** sp.N
    K = 1 + case["K"] % total
    d = sut(sp.dist)
    seq = decode(call(d.sample_without_replacement, K, case["nograd"]), (K, sp.B, sp.N, sp.C), "samples without replacement")
    for b in range(sp.B):
        got = [tuple(int(x) for x in seq[k, b]) for k in range(K)]
        expect(len(set(got)) == K, "item %d: %d samples without replacement contain only %d different ones", b, K, len(set(got)))
    return labels(case) + ["all" if K == total else "some"]


def one_without(case):
    """One sample without replacement is a plain sample; for sequences of one token the
    order in which K come out is that of draws without putting back."""
    sp = Spec(case)
    K = min(case["K"], sp.C) if sp.N == 1 else 1
    d = sut(sp.dist)
    seq = decode(call(d.sample_without_replacement, K, case["nograd"]), (K, sp.B, sp.N, sp.C), "samples without replacement")
    tab = sp.table(0)
    got = {}
    for b in range(sp.B):
        key = tuple(tuple(int(v) for v in seq[k, b]) for k in range(K))
        got[key] = got.get(key, 0) + 1
    for order in itertools.permutations(sp.sequences(), K):
        p, left = 1.0, 1.0
        for o in order:
            q = np.exp(tab[o])
            p *= min(1.0, q / left) if left > 0 else 0.0
            left -= q
        n = got.pop(order, 0)
        expect(not stat.implausible(n, sp.B, p, 1e-4), "%s of probability %.6g came out first without replacement %d times in %d", order, p, n, sp.B)
    expect(not got, "repeated samples without replacement: %s", sorted(got)[:2])
    return labels(case) + ["first:%d" % K]


@st.composite
def one_without_case(draw):
    c = draw(spec_case(max_seqs=32, scales=("soft", "mid", "mid", "flat", "offset"), normalize=True, max_b=1))
    if draw(st.booleans()):
        c["N"] = 1
    c["K"] = draw(st.integers(1, 3))
    B = c["B"] = draw(st.sampled_from([300, 1000]))
    c["init"], c["t0"] = c["init"] * B, c["t0"] * B
    c["nograd"] = draw(st.booleans())
    return c


def few(case):
    "Small sample counts: shape and validity."
    sp = Spec(case)
    d = sut(sp.dist)
    if case["before"]:
        sut(d.greedy_max)
    decode(call(d.sample, case["S"], case["nograd"]), (case["S"], sp.B, sp.N, sp.C), "samples")
    return labels(case)


@st.composite
def freq_case(draw):
    c = draw(spec_case(max_seqs=32, scales=("soft", "mid", "mid", "sharp", "flat", "offset"), normalize=True))
    c["S"] = draw(st.sampled_from([1500, 1500, 1500, 4200]))
    c["again"] = draw(st.sampled_from(["same", "new"]))
    if draw(st.booleans()):
        c["lag"] = draw(st.integers(0, 5000))
    c["nograd"] = draw(st.booleans())
    if c["B"] > 1 and draw(st.booleans()):  # two items with the same start
        c["init"] = c["init"][:8] * c["B"]
        c["t0"] = [c["t0"][0]] * c["B"]
    return c


@st.composite
def distinct_case(draw):
    c = draw(spec_case())
    c["K"] = draw(st.one_of(st.integers(0, 8), st.integers(0, 80)))
    c["nograd"] = draw(st.booleans())
    return c


@st.composite
def few_case(draw):
    c = draw(spec_case(max_seqs=4 ** 6))
    c["S"] = draw(st.integers(1, 6))
    c["nograd"] = draw(st.booleans())
    c["before"] = draw(st.booleans())
    return c


def subs(tier):
    return [
        Sub("frequency", freq_case(), frequency, 800, 12000),
        Sub("without-replacement", distinct_case(), distinct, 1500, 20000),
        Sub("one-without", one_without_case(), one_without, 200, 3000),
        Sub("valid", few_case(), few, 600, 6000),
        Sub("conditional", conditional_case(), conditional, 100, 1600),
        Sub("spread", spread_case(), spread, 40, 600),
        Sub("many-distinct", many_distinct_case(), many_distinct, 60, 1000),
    ]
