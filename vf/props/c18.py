"""C18: autoregressive log-probability against the chain rule, one prefix at a time."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import judge
from ..armodel import Spec, big_spec, labels, spec_case
from ..runner import Sub
from ..sut import expect, sut

ID = "C18"
QUICK = 2.5
RULE = (
    "a case is a history-dependent model with per-item initial states, its settings and a list "
    "of sequences (or all of them); non-trivial when there are at least two classes"
)


def onehot(seqs, C, dtype):
    return torch.nn.functional.one_hot(seqs, C).to(dtype)


def check(case):
    sp = Spec(case)
    d = sut(sp.dist)
    tab = [sp.table(b) for b in range(sp.B)]
    every = sp.sequences()
    if case["all"]:
        seqs = [[s] * sp.B for s in every]
    else:
        seqs = [[every[(i + 7 * b) % len(every)] for b in range(sp.B)] for i in case["pick"]]
    v = torch.tensor(seqs).reshape(len(seqs), sp.B, sp.N)
    forms = {
        "index": (v, True), "long": (onehot(v, sp.C, torch.long), False),
        "float": (onehot(v, sp.C, torch.float32), False), "double": (onehot(v, sp.C, torch.float64), False),
        "index32": (v.int(), True),
    }
    if case.get("before"):
        sut(lambda: getattr(d, case["before"])() if case["before"] == "greedy_max" else d.sample((2,)))
    for f in case["forms"]:
        val, sparse = forms[f]
        keep = val.clone()
        ctx = torch.no_grad() if case["nograd"] else torch.enable_grad()
        with ctx:
            got = sut(d.log_prob, val, sparse=True) if sparse else sut(d.log_prob, val)
        expect(torch.equal(val, keep), "log_prob changed the value passed in")
        expect(tuple(got.shape) == (len(seqs), sp.B), "log_prob has shape %s", tuple(got.shape))
        g = got.detach().double().numpy()
        want = np.array([[tab[b][tuple(seqs[i][b])] for b in range(sp.B)] for i in range(len(seqs))])
        judge.close_array(g, want, sp.tol * (1 + np.abs(want).max()), "log-probability (%s form) at (sample, item)" % f)
        if case["all"] and sp.normalize:
            judge.close_array(np.exp(g).sum(0), np.ones(sp.B), 100 * sp.tol, "total probability per item")
    out = labels(case) + ["form:" + f for f in case["forms"]]
    if case["all"]:
        out.append("all-sequences")
    return out


def many(case):
    "Large vocabularies, lengths and batches, random sequences."
    sp = Spec(case)
    d = sut(sp.dist)
    S = case["S"]
    rng = np.random.RandomState(case["wseed"] + 1)
    seqs = rng.randint(0, sp.C, (S, sp.B, sp.N))
    seqs[0, 0, :] = sp.C - 1  # the last class everywhere
    v = torch.tensor(seqs)
    want = np.stack([sp.score(b, seqs[:, b]) for b in range(sp.B)], 1)
    for f in case["forms"]:
        val = {"index": v, "index32": v.int(), "long": onehot(v, sp.C, torch.long), "float": onehot(v, sp.C, torch.float32),
               "double": onehot(v, sp.C, torch.float64)}[f]
        got = sut(d.log_prob, val, sparse=True) if f.startswith("index") else sut(d.log_prob, val)
        expect(tuple(got.shape) == (S, sp.B), "log_prob has shape %s", tuple(got.shape))
        judge.close_array(got.detach().double().numpy(), want, sp.tol * sp.N * (1 + np.abs(want).max()), "log-probability (%s form) at (sample, item)" % f)
    return labels(case) + ["form:" + f for f in case["forms"]]


@st.composite
def many_case(draw):
    c = draw(big_spec())
    c["S"] = draw(st.sampled_from([1, 2, 5, 12, 65, 130, 260]))
    if c["S"] > 12 and c["S"] * c["C"] * c["N"] * c["B"] > 150000:
        c["B"] = 1
        c["t0"] = c["t0"][:1]
    c["forms"] = draw(st.lists(st.sampled_from(["index", "long", "float", "double", "index32"]), min_size=1, max_size=2, unique=True))
    return c


@st.composite
def cases(draw):
    c = draw(spec_case())
    c["all"] = draw(st.booleans())
    c["pick"] = draw(st.lists(st.integers(0, 80), min_size=1, max_size=7))
    c["forms"] = draw(st.lists(st.sampled_from(["index", "long", "float", "double", "index32"]), min_size=1, max_size=2, unique=True))
    c["nograd"] = draw(st.booleans())
    b = draw(st.sampled_from([None, None, "greedy_max", "sample"]))
    if b:
        c["before"] = b
    return c


def subs(tier):
    return [
        Sub("chain-rule", cases(), check, 3000, 40000),
        Sub("many", many_case(), many, 250, 4000),
    ]
