"""C22: sampling and Gumbel semirings."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import judge, kinds as K, stat
from ..runner import Sub
from ..sut import expect, sut, ts
from . import c07

ID = "C22"
RULE = (
    "a case is a model case run with a sampling or Gumbel semiring at some temperature, or a "
    "tensor and a dimension to sum over, or a replicated model whose draws are counted with "
    "exact binomial tails (1e-10 each); non-trivial when some item has at least two structures "
    "(the dimension at least two entries) and not all values are zero"
)
ASSUMPTIONS = ["the tensor library's generator is a good source of randomness"]
STRUCT = {"lc": "LinearChain", "sm": "SemiMarkov", "dep": "DepTree", "tree": "CKY_CRF"}
SRS = ["sampled", "gumbelmax", "gumbelcrf", "multi"]


def semiring(name, temp):
    S = ts()
    return {
        "sampled": lambda: S.SampledSemiring,
        "gumbelmax": lambda: S.GumbelMaxSemiring(temp),
        "gumbelcrf": lambda: S.GumbelCRFSemiring(temp),
        "multi": lambda: S.MultiSampledSemiring,
    }[name]()


def structure(bt, sr):
    s = getattr(ts(), STRUCT[bt.kind])(sr)
    if bt.kind == "dep":
        s.multiroot = bool(bt.dims[2])
    return s


def model(case):
    bt = K.Built(case)
    sr = sut(semiring, case["sr"], case["temp"])
    v = judge.vector(sut(structure(bt, sr).sum, bt.x, bt.lt), bt, "sum")
    for b in bt.items():
        judge.close(v[b], bt.exact(b).logZ, bt.tol(b), "sum of item %d" % b)
    m = sut(structure(bt, sr).marginals, bt.x, bt.lt)
    picks = [m]
    if case["sr"] == "multi":
        picks = [sut(sr.to_discrete, m, j) for j in case["slots"]]
    for p in picks:
        rows = judge.event_tensor(p, bt, "gradient of the sum")
        for b in bt.items():
            judge.legal(rows[b], bt, b, "gradient of the sum")
    return judge.base_labels(case, bt) + ["sr:" + case["sr"]]


def gumbel_crf(case):
    bt = K.Built(case)
    if not bt.x.requires_grad:
        bt.x.requires_grad_(True)
    d = bt.dist()
    temp = case["temp"]
    if case["how"] == "default":
        temp = 1.0
        g = sut(d.gumbel_crf)
    elif case["how"] == "nograd":
        with torch.no_grad():
            g = sut(d.gumbel_crf, temp)
    else:
        g = sut(d.gumbel_crf, temperature=temp) if case["how"] == "kw" else sut(d.gumbel_crf, temp)
    rows = judge.event_tensor(g, bt, "Gumbel-CRF result")
    for b in bt.items():
        judge.legal(rows[b], bt, b, "Gumbel-CRF result")
    rng = np.random.RandomState(case["wseed"])
    w = torch.tensor(rng.randn(*g.shape), dtype=bt.dtype)
    out = judge.base_labels(case, bt) + ["gumbel:" + case["how"]]
    expect(g.requires_grad, "Gumbel-CRF result is cut off from the potentials")
    grad = sut(torch.autograd.grad, (g * w).sum(), bt.x, allow_unused=True)[0]
    expect(grad is not None, "no gradient reaches the potentials")
    expect(bool(torch.isfinite(grad).all()), "gradient through the Gumbel-CRF result is not finite")
    many = [b for b in bt.items() if len(bt.exact(b).M) > 1 and not (bt.kind in ("lc", "sm") and bt.lens[b] == 1)]
    if many and temp >= 1 and case["prof"] == "tiny" and not case.get("forb"):
        expect(float(grad.abs().max()) > 0, "gradient through the Gumbel-CRF result is identically zero")
        out.append("nonzero-gradient")
    return out


def frequency(case):
    base = K.Built(dict(case, layout="c"))
    R, S = case["reps"], case["n"]
    reps = [v for v in range(base.B) for _ in range(R)]
    lens = None if base.lt is None else base.lt[reps]
    sr = sut(semiring, case["sr"], 1.0)
    rows = []
    while len(rows) < S:
        m = sut(structure(base, sr).marginals, base.x[reps].clone(), lens).detach()
        got = [m] if case["sr"] == "sampled" else [sut(sr.to_discrete, m, j) for j in range(1, 9)]
        rows += [g.double().reshape(base.B, R, -1).numpy() for g in got]
    s = np.stack(rows)  # (S', B, R, E)
    slack = 1e-4 if base.f32 else 1e-6
    for b in base.items():
        ex = base.exact(b)
        ids, _ = c07.ids_of(s[:, b].reshape(len(rows) * R, -1), ex.M, "item %d" % b)
        q = c07.group_probs(ex.M, ex.p)
        c07.judge_counts(ids, q, ex.M, ex.marg, "item %d" % b, slack)
        ids = ids.reshape(len(rows), R)
        h = R // 2
        c07.judge_pairs(ids[:, :h].ravel(), ids[:, h:2 * h].ravel(), q, "draws of different batch items")
        c07.judge_pairs(ids[0::2].ravel(), ids[1::2].ravel(), q, "consecutive draws of item %d" % b)
    return judge.base_labels(case, base) + ["sr:" + case["sr"]]


def along(case):
    "sum(x, dim) is logsumexp; its gradient is one-hot along dim."
    shape, dim = case["shape"], case["dim"]
    n = int(np.prod(shape))
    x = K.decode(case["vals"], n, case["prof"]).reshape(shape)
    t = torch.tensor(x, dtype=torch.float64)
    if case["layout"] == "rev":
        t = K.lay_out(t, "rev")
    t.requires_grad_(True)
    sr = sut(semiring, case["sr"], case["temp"])
    v = sut(lambda: sr.sum(t, dim) if not case["kw"] else sr.sum(t, dim=dim))
    mv = np.moveaxis(x, dim, -1)
    top = mv.max(-1)
    want = top + np.log(np.exp(mv - top[..., None]).sum(-1))
    expect(tuple(v.shape) == want.shape, "sum has shape %s, expected %s", tuple(v.shape), want.shape)
    judge.close_array(v.detach().numpy(), want, 1e-9 * (1 + np.abs(x).max()), "sum along %d" % dim)
    g = sut(torch.autograd.grad, v.sum(), t)[0]
    picks = [g] if case["sr"] != "multi" else [sut(sr.to_discrete, g, j) for j in range(1, 16)]
    for p in picks:
        p = np.moveaxis(p.detach().numpy(), dim, -1)
        expect(np.isin(p, (0.0, 1.0)).all() and (p.sum(-1) == 1).all(), "gradient of the sum along %d is not one choice per entry", dim)
    out = ["sr:" + case["sr"], "axis:%s" % ("last" if dim % len(shape) == len(shape) - 1 else "other")]
    if shape[dim] < 2:
        out.append("trivial:single-entry")
    elif not case["vals"].strip("0"):
        out.append("trivial:zero")
    return out


def along_freq(case):
    "The choice within one sum, along any dimension and at any temperature, follows the softmax."
    k, R, dim = case["k"], 2000, case["dim"]
    x = K.decode(case["vals"], k, "jitter")
    if k > 6:
        x = x / 4  # all entries keep a noticeable share
    p = np.exp(x - x.max())
    p /= p.sum()
    t = torch.tensor(x, dtype=torch.float64)
    t = t[None].expand(R, k).clone() if dim in (-1, 1) else t[:, None].expand(k, R).clone()
    if case["deep"]:
        t = t.unsqueeze(1)
        dim = {-1: -1, 1: 2, 0: 0, -2: -3}[dim]
    t.requires_grad_(True)
    sr = sut(semiring, case["sr"], case["temp"])
    if case["sr"].startswith("gumbel"):
        # one noise vector serves a whole call: only separate calls are separate draws
        R = 400
        t = torch.tensor(x, dtype=torch.float64)
        t = {-1: t[None], 1: t[None], 0: t[:, None], -2: t[:, None]}[case["dim"]].clone()
        if case["deep"]:
            t = t.unsqueeze(1)
        t.requires_grad_(True)
        g = torch.stack([sut(torch.autograd.grad, sut(sr.sum, t, dim).sum(), t)[0].reshape(k) for _ in range(R)])
        dim = 1
    else:
        g = sut(torch.autograd.grad, sut(sr.sum, t, dim).sum(), t)[0]
    if case["sr"] == "multi":
        g = sut(sr.to_discrete, g, case["slot"])
    counts = np.moveaxis(g.numpy(), dim, -1).reshape(-1, k).sum(0)
    for c in (k // 2, k - 1 - k // 4):  # the later entries together
        expect(not stat.implausible(int(counts[c:].sum()), R, float(p[c:].sum()), 1e-6), "choices from %d on, of probability %.5f, drawn %d times in %d", c, p[c:].sum(), int(counts[c:].sum()), R)
    for i in range(k):
        expect(not stat.implausible(int(counts[i]), R, float(p[i]), 1e-6), "choice %d of probability %.5f drawn %d times in %d", i, p[i], int(counts[i]), R)
    return ["sr:" + case["sr"], "dim:%d" % case["dim"]] + (["trivial:single-entry"] if k < 2 else [])


@st.composite
def model_(draw):
    c = draw(K.model_case(kinds=K.TENSOR_KINDS, layouts=("c", "c", "grad", "rev", "step"), forb="-1e4"))
    c["sr"] = draw(st.sampled_from(SRS))
    c["temp"] = draw(st.sampled_from([1.0, 0.1, 0.5, 3.0, 20.0]))
    c["slots"] = draw(st.lists(st.integers(1, 15), min_size=1, max_size=4, unique=True))
    return c


@st.composite
def gumbel_(draw):
    c = draw(K.model_case(kinds=K.TENSOR_KINDS, layouts=("grad", "grad", "nonleaf", "rev", "c"),
                          profiles=("dyadic", "jitter", "tiny", "tiny", "wide", "ties"), forb="-1e4"))
    c["temp"] = draw(st.sampled_from([1.0, 0.1, 0.01, 0.5, 3.0, 20.0]))
    c["how"] = draw(st.sampled_from(["pos", "kw", "default", "nograd"]))
    c["wseed"] = draw(st.integers(0, 10 ** 6))
    return c


@st.composite
def freq_(draw):
    c = draw(K.model_case(kinds=K.TENSOR_KINDS, table="tiny", max_b=2, profiles=("jitter", "tiny", "dyadic", "ties")))
    c["sr"] = draw(st.sampled_from(["sampled", "sampled", "multi"]))
    c["reps"], c["n"] = 80, 12
    return c


@st.composite
def tensor_(draw):
    rank = draw(st.integers(1, 4))
    shape = [draw(st.integers(1, 4)) for _ in range(rank)]
    dim = draw(st.integers(-rank, rank - 1))
    if rank < 3 and draw(st.integers(0, 3)) == 3:
        shape[dim] = draw(st.sampled_from([7, 16, 17, 33, 65, 130]))
    n = int(np.prod(shape))
    return {
        "shape": shape, "dim": dim, "kw": draw(st.booleans()), "sr": draw(st.sampled_from(SRS)),
        "temp": draw(st.sampled_from([1.0, 0.1, 4.0])), "layout": draw(st.sampled_from(["c", "rev"])),
        "prof": draw(st.sampled_from(["dyadic", "jitter", "tiny", "wide", "ties"])),
        "vals": draw(st.binary(min_size=n, max_size=n)).hex(),
    }


@st.composite
def along_freq_(draw):
    k = draw(st.one_of(st.integers(2, 6), st.sampled_from([9, 16, 17, 25, 33, 50])))
    return {"k": k, "dim": draw(st.sampled_from([-1, 1, 0, -2])), "deep": draw(st.booleans()),
            "sr": draw(st.sampled_from(SRS)), "slot": draw(st.integers(1, 15)),
            "temp": draw(st.sampled_from([1.0, 0.1, 0.3, 0.5, 2.0, 3.0, 20.0])),
            "vals": np.random.RandomState(draw(st.integers(0, 10 ** 6))).bytes(k).hex() if k > 6 else draw(st.binary(min_size=k, max_size=k)).hex()}


def subs(tier):
    return [
        Sub("model", model_(), model, 3000, 40000),
        Sub("gumbel-crf", gumbel_(), gumbel_crf, 2000, 30000),
        Sub("frequency", freq_(), frequency, 400, 6000),
        Sub("along", tensor_(), along, 2000, 20000),
        Sub("along-frequency", along_freq_(), along_freq, 240, 4000),
    ]
