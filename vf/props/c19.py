"""C19: greedy and beam search against step-by-step references."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import judge
from ..armodel import Spec, big_spec, labels, spec_case
from ..runner import Sub
from ..sut import expect, sut

ID = "C19"
QUICK = 1.5
RULE = (
    "a case is a history-dependent model with per-item initial states and a beam width from 1 "
    "to more than the number of sequences; non-trivial when there are at least two classes. "
    "Beams whose kept set depends on a near tie are judged on validity only"
)


def decode(path, sp, what):
    "(K, B, N, C) one-hot tensor -> integer sequences."
    a = path.detach().double().numpy()
    ok = np.isin(a, (0.0, 1.0)).all() and (a.sum(-1) == 1).all()
    expect(ok, "%s is not a one-hot sequence: %s", what, a.tolist() if a.size < 60 else "...")
    return a.argmax(-1)


def call(f, *a, nograd=False):
    if nograd:
        with torch.no_grad():
            return sut(f, *a)
    return sut(f, *a)


def greedy(case):
    sp = Spec(case)
    d = sut(sp.dist)
    if case["tempmax"]:
        path, best, logits = call(d.greedy_tempmax, case["alpha"], nograd=case["nograd"])
    else:
        path, best, logits = call(d.greedy_max, nograd=case["nograd"])
    expect(tuple(path.shape) == (sp.B, sp.N, sp.C), "greedy path has shape %s", tuple(path.shape))
    expect(tuple(best.shape) == (sp.B,), "greedy score has shape %s", tuple(best.shape))
    expect(tuple(logits.shape) == (sp.B, sp.N, sp.C), "per-step scores have shape %s", tuple(logits.shape))
    lg = logits.detach().double().numpy()
    if case["tempmax"]:  # soft tokens feed back, so only the scores are claimed
        seq = lg.argmax(-1)
    else:
        seq = decode(path[None], sp, "greedy path")[0]
    bs = best.detach().double().numpy()
    for b in range(sp.B):
        total = 0.0
        for n in range(sp.N):
            c = seq[b, n]
            tol = sp.tol * (1 + np.abs(lg[b, n]).max())
            if not case["tempmax"]:
                want = sp.step_scores(b, tuple(seq[b, :n]))
                judge.close_array(lg[b, n], want, tol, "scores of item %d at step %d given its own prefix" % (b, n))
            elif sp.normalize:
                judge.close(np.exp(lg[b, n]).sum(), 1.0, 100 * sp.tol, "total probability of item %d at step %d" % (b, n))
            expect(lg[b, n, c] >= lg[b, n].max() - 2 * tol, "item %d step %d chose score %r over %r", b, n, lg[b, n, c], lg[b, n].max())
            total += lg[b, n, c]
        judge.close(bs[b], total, 10 * sp.N * sp.tol * (1 + abs(total)), "greedy score of item %d" % b)
    return labels(case) + ["tempmax" if case["tempmax"] else "greedy"]


def reference_beam(sp, b, K):
    """Sequences a beam of width K keeps, best first, and the smallest score margin by
    which a candidate was kept or dropped or two kept ones were ordered."""
    beam = [((), 0.0)]
    margin = np.inf
    for _ in range(sp.N):
        cand = []
        for pre, s in beam:
            x = sp.step_scores(b, pre)
            cand += [(pre + (c,), s + x[c]) for c in range(sp.C)]
        cand.sort(key=lambda t: -t[1])
        if len(cand) > K:
            margin = min(margin, cand[K - 1][1] - cand[K][1])
        beam = cand[:K]
    order = min([beam[i][1] - beam[i + 1][1] for i in range(len(beam) - 1)] or [np.inf])
    return beam, margin, order


def beam(case):
    sp = Spec(case)
    K = case["K"]
    d = sut(sp.dist)
    path = call(d.beam_topk, K, nograd=case["nograd"])
    expect(tuple(path.shape) == (K, sp.B, sp.N, sp.C), "beam has shape %s", tuple(path.shape))
    total = sp.C ** sp.N
    m = min(K, total)
    seq = decode(path[:m], sp, "beam")
    own = call(d.log_prob, path[:m], nograd=case["nograd"]).detach().double().numpy()
    scores = None
    if hasattr(d, "_beam_max"):
        scores = call(d._beam_max, K, nograd=case["nograd"]).detach().double().numpy()
        expect(scores.shape == (K, sp.B), "beam scores have shape %s", scores.shape)
    out = labels(case)
    for b in range(sp.B):
        tab = sp.table(b)
        got = [tuple(int(x) for x in seq[i, b]) for i in range(m)]
        want = np.array([tab[s] for s in got])
        tol = 10 * sp.tol * (1 + np.abs(want).max())
        expect(len(set(got)) == m, "beam of item %d repeats a sequence: %s", b, got)
        judge.close_array(own[:, b], want, tol, "log-probability of beam sequences of item %d" % b)
        if scores is not None:
            judge.close_array(scores[:m, b], want, tol, "beam scores of item %d" % b)
        expect((want[:-1] >= want[1:] - 2 * tol).all(), "beam of item %d is not in descending order: %s", b, want.tolist())
        ref, margin, order = reference_beam(sp, b, K)
        if margin > 10 * tol:
            expect(set(got) == {s for s, _ in ref}, "beam of item %d keeps %s, a beam search of width %d keeps %s", b, sorted(got)[:6], K, sorted(s for s, _ in ref)[:6])
            if order > 10 * tol:
                expect(got == [s for s, _ in ref], "beam of item %d is ordered %s, expected %s", b, got[:6], [s for s, _ in ref][:6])
        else:
            out.append("near-tie")
        if K >= sp.C ** (sp.N - 1):
            best = sorted(tab.values(), reverse=True)[:m]
            judge.close_array(np.sort(want)[::-1], np.array(best), tol, "exact top scores of item %d" % b)
            out.append("exact")
    if K > total:
        out.append("K>sequences")
    out.append("K:%s" % (K if K < 4 else "4+"))
    return sorted(set(out))


def wide_reference(sp, b, K):
    "As reference_beam, over arrays."
    seqs, score = np.zeros((1, 0), dtype=int), np.zeros(1)
    margin = np.inf
    for n in range(sp.N):
        x = sp.walk(b, np.concatenate([seqs, np.zeros((len(seqs), 1), dtype=int)], 1))[:, -1]
        cand = (score[:, None] + x).reshape(-1)
        order = np.argsort(-cand, kind="stable")
        if len(order) > K:
            margin = min(margin, cand[order[K - 1]] - cand[order[K]])
        order = order[:K]
        seqs = np.concatenate([seqs[order // sp.C], (order % sp.C)[:, None]], 1)
        score = cand[order]
    gap = float(np.min(score[:-1] - score[1:])) if len(score) > 1 else np.inf
    return seqs, margin, gap


def many(case):
    "Greedy and beam search over large vocabularies, lengths, batches and beams."
    sp = Spec(case)
    K = case["K"]
    d = sut(sp.dist)
    out = labels(case)
    path, best, logits = sut(d.greedy_max)
    expect(tuple(path.shape) == (sp.B, sp.N, sp.C), "greedy path has shape %s", tuple(path.shape))
    seq = decode(path[None], sp, "greedy path")[0]
    lg, bs = logits.detach().double().numpy(), best.detach().double().numpy()
    tol = sp.tol * (1 + np.abs(lg).max())
    for b in range(sp.B):
        want = sp.walk(b, seq[b][None])[0]
        judge.close_array(lg[b], want, tol, "scores of item %d given its own prefix" % b)
        chosen = want[np.arange(sp.N), seq[b]]
        expect((chosen >= want.max(1) - 2 * tol).all(), "item %d chose a lower-scoring token", b)
        judge.close(bs[b], chosen.sum(), 10 * sp.N * tol, "greedy score of item %d" % b)
    path = sut(d.beam_topk, K)
    expect(tuple(path.shape) == (K, sp.B, sp.N, sp.C), "beam has shape %s", tuple(path.shape))
    m = min(K, sp.C ** sp.N)
    seq = decode(path[:m], sp, "beam")
    for b in range(sp.B):
        got = seq[:, b]
        want = sp.score(b, got)
        t = 10 * sp.tol * sp.N * (1 + np.abs(want).max())
        expect(len({tuple(r) for r in got.tolist()}) == m, "beam of item %d repeats a sequence", b)
        expect((want[:-1] >= want[1:] - t).all(), "beam of item %d is not in descending order", b)
        ref, margin, gap = wide_reference(sp, b, K)
        if margin > 10 * t:
            expect({tuple(r) for r in got.tolist()} == {tuple(r) for r in ref.tolist()},
                   "beam of item %d keeps %s, a beam search of width %d keeps %s", b, got[:3].tolist(), K, ref[:3].tolist())
            if gap > 10 * t:
                expect(np.array_equal(got, ref), "beam of item %d is in another order than its scores", b)
            out.append("judged-by-reference")
        else:
            out.append("near-tie")
    return sorted(set(out + ["K>16"] if K > 16 else out))


@st.composite
def many_case(draw):
    c = draw(big_spec())
    c["K"] = draw(st.sampled_from([1, 2, 3, 5, 9, 16, 17, 18, 33, 40, 65, 70, 130]))
    if c["K"] > 40:  # the search costs a backward pass per kept sequence
        c["B"] = 1
        if c["N"] > 12:
            c["C"], c["N"], c["start"] = 6, 5, c["start"] % 6
    elif c["C"] * c["N"] * c["K"] * c["B"] > 40000:
        c["K"] = 2
        c["B"] = min(c["B"], 3)
    return c


@st.composite
def greedy_case(draw):
    c = draw(spec_case())
    c["tempmax"] = draw(st.integers(0, 3)) == 3
    c["alpha"] = draw(st.sampled_from([0.5, 1, 2.0, 10.0]))
    c["nograd"] = draw(st.integers(0, 3)) == 3
    return c


@st.composite
def beam_case(draw):
    c = draw(spec_case())
    c["K"] = draw(st.one_of(st.integers(1, 6), st.integers(1, 30)))
    c["nograd"] = draw(st.integers(0, 3)) == 3
    return c


def subs(tier):
    return [
        Sub("greedy", greedy_case(), greedy, 2000, 30000),
        Sub("beam", beam_case(), beam, 2000, 30000),
        Sub("many", many_case(), many, 150, 2400),
    ]
