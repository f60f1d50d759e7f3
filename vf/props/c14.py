"""C14: checkpointing wrappers are transparent."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import huge, judge, kinds as K
from ..runner import Sub
from ..sut import expect, sut, ts

ID = "C14"
QUICK = 1.5
RULE = (
    "a case is (semiring, wrapper with its thresholds, operand shapes with broadcasting, "
    "which operands need gradients, values) or a chain/segmental model run with the wrapped "
    "semiring; non-trivial when the wrapper takes the recomputing path and some operand "
    "needs a gradient"
)


def semiring(name, k):
    T = ts()
    return {
        "log": lambda: T.LogSemiring, "max": lambda: T.MaxSemiring, "std": lambda: T.StdSemiring,
        "kmax": lambda: T.KMaxSemiring(k), "ent": lambda: T.EntropySemiring,
        "ce": lambda: T.CrossEntropySemiring, "kl": lambda: T.KLDivergenceSemiring,
    }[name]()


def wrapped(S, case):
    T = ts()
    if case["wrap"] == "check":
        return sut(lambda: T.CheckpointSemiring(S, case["min_size"]))
    return sut(lambda: T.CheckpointShardSemiring(S, case["max_size"], case["min_size"]))


def build(case):
    S = semiring(case["name"], case["k"])
    s = S.size()
    lead, bc = case["lead"], case["bc"]
    la, lb = list(lead), list(lead)
    for i in range(len(lead)):
        r = (bc >> (2 * i)) & 3
        if r == 1:
            la[i] = 1
        elif r == 2:
            lb[i] = 1
    n, m, p = case["nmp"]
    if case["op"] == "dot":
        sa, sb = la + [m], lb + [m]
    else:
        sa, sb = la + [n, m], lb + [m, p]
    rng = np.random.RandomState(case["vseed"])
    dt = torch.float32 if case["dtype"] == "f32" else torch.float64

    def values(sh):
        v = rng.randint(-40, 41, [s] + sh) / 16.0 + rng.rand(*([s] + sh)) * 0.05
        if case["name"] == "kmax":
            v = -np.sort(-v, axis=0)
        return v

    return S, values(sa), values(sb), dt


def leaf(v, dt, case, need):
    t = torch.tensor(v, dtype=dt)
    if case["lay"]:
        t = K.lay_out(t, "rev")
    return t.requires_grad_(True) if need else t


def run(S, case, va, vb, dt):
    a, b = leaf(va, dt, case, case["need"] & 1), leaf(vb, dt, case, case["need"] & 2)
    op = S.dot if case["op"] == "dot" else S.matmul
    x, y = (a * 1.0, b * 1.0) if case["nonleaf"] else (a, b)
    r = op(x, y)
    w = torch.tensor(np.random.RandomState(case["vseed"] + 1).rand(*r.shape), dtype=dt)
    need = [t for t in (a, b) if t.requires_grad]
    g = torch.autograd.grad((r * w).sum(), need) if need else ()
    return r, g


def product(case):
    S, va, vb, dt = build(case)
    r1, g1 = run(S, case, va, vb, dt)
    W = wrapped(S, case)
    r2, g2 = sut(run, W, case, va, vb, dt)
    tol = 1e-4 if case["dtype"] == "f32" else 1e-9
    expect(r1.shape == r2.shape, "wrapped product has shape %s, expected %s", tuple(r2.shape), tuple(r1.shape))
    expect(r1.dtype == r2.dtype, "wrapped product has dtype %s", r2.dtype)
    judge.close_array(r2.detach().double().numpy(), r1.detach().double().numpy(), tol, "wrapped product")
    for u, v in zip(g1, g2):
        expect(u.shape == v.shape, "wrapped gradient has shape %s, expected %s", tuple(v.shape), tuple(u.shape))
        judge.close_array(v.double().numpy(), u.double().numpy(), tol * 10, "gradient through the wrapper")
    out = [case["name"], case["wrap"], case["op"]]
    if not case["need"]:
        out.append("trivial:no-gradient")
    if case["min_size"] > 50:
        out.append("trivial:below-threshold")
    return out


def model(case):
    bt = K.Built(case)
    T = ts()
    S = semiring(case["name"], case["k"])
    W = wrapped(S, case)
    cls = T.LinearChain if bt.kind == "lc" else T.SemiMarkov
    res = []
    for s, call in ((S, lambda f, *a, **k: f(*a, **k)), (W, sut)):
        x = bt.x.detach().clone().requires_grad_(True)
        v = call(lambda: cls(s).sum(x, bt.lt))
        g = call(lambda: torch.autograd.grad(v.sum(), x)[0])
        m = call(lambda: cls(s).marginals(x, bt.lt)) if case["name"] in ("log", "max") else v
        res.append((v, g, m))
    tol = (3e-4 if bt.f32 else 1e-8) * max(bt.exact(b).scale for b in bt.items())
    for a, b, w in zip(res[0], res[1], ("value", "gradient", "marginals")):
        expect(a.shape == b.shape, "%s has another shape with the wrapper", w)
        judge.close_array(b.detach().double().numpy(), a.detach().double().numpy(), tol, w + " with the wrapper")
    return judge.base_labels(case, bt) + [case["name"], case["wrap"]]


def sampled(case):
    "Stochastic semirings: the wrapped value is still the exact log-sum."
    S0, va, vb, dt = build(dict(case, name="log"))
    T = ts()
    W = wrapped(T.SampledSemiring, case)
    r1, _ = run(S0, dict(case, need=0), va, vb, dt)
    r2, _ = sut(run, W, dict(case, need=0), va, vb, dt)
    judge.close_array(r2.detach().double().numpy(), r1.detach().double().numpy(), 1e-4 if case["dtype"] == "f32" else 1e-9, "wrapped product")
    return ["sampled"]


@st.composite
def wrap_bits(draw):
    return {
        "wrap": draw(st.sampled_from(["check", "shard"])),
        "min_size": draw(st.sampled_from([0, 0, 0, 1, 3, 12, 50, 10 ** 6])),
        "max_size": draw(st.sampled_from([0, 1, 2, 3, 5, 8, 20, 60, 200, 10 ** 5])),
    }


@st.composite
def product_case(draw):
    c = draw(wrap_bits())
    c.update({
        "name": draw(st.sampled_from(["log", "log", "max", "std", "kmax", "ent", "ce", "kl"])),
        "k": draw(st.integers(1, 4)),
        "op": draw(st.sampled_from(["matmul", "matmul", "dot"])),
        "lead": draw(st.lists(st.integers(1, 5), min_size=0, max_size=3)),
        "bc": draw(st.integers(0, 63)),
        "nmp": [draw(st.integers(1, 4)) for _ in range(3)],
        "need": draw(st.sampled_from([3, 3, 3, 1, 2, 0])),
        "nonleaf": draw(st.booleans()),
        "lay": draw(st.integers(0, 3)) == 3,
        "vseed": draw(st.integers(0, 10 ** 6)),
        "dtype": draw(st.sampled_from(["f64", "f64", "f32"])),
    })
    return c


@st.composite
def chain_case(draw):
    c = draw(K.model_case(kinds=["lc", "sm"], profiles=("jitter",)))
    c.update(draw(wrap_bits()))
    c["name"] = draw(st.sampled_from(["log", "log", "max", "ent"]))
    c["k"] = 1
    return c


@st.composite
def large_case(draw):
    c = draw(product_case())
    c["lead"] = draw(st.sampled_from([[], [7], [16], [17], [33], [3, 9], [12, 2], [2, 3, 4], [65], [1, 20]]))
    c["nmp"] = draw(st.sampled_from([[5, 9, 7], [8, 8, 8], [1, 33, 1], [9, 17, 5], [20, 3, 2], [3, 4, 20], [2, 65, 2], [6, 6, 11], [17, 2, 17]]))
    c["max_size"] = draw(st.sampled_from([1, 7, 64, 100, 333, 1000, 2500, 5000, 20000, 10 ** 5]))
    c["min_size"] = draw(st.sampled_from([0, 0, 0, 40, 500]))
    return c


def long_model(case):
    "Chains and segmental models too long to enumerate: wrapped against plain."
    h = huge.Huge(dict(case, layout="c"))
    T = ts()
    S = semiring(case["name"], case["k"])
    W = wrapped(S, case)
    cls = T.LinearChain if h.kind == "lc" else T.SemiMarkov
    res = []
    for s, call in ((S, lambda f: f()), (W, sut)):
        x = h.x.detach().clone().requires_grad_(True)
        v = call(lambda: cls(s).sum(x, h.lt))
        res.append((v, call(lambda: torch.autograd.grad(v.sum(), x)[0])))
    top = max(h.scale(b) for b in h.items())
    for a, b, w, t in zip(res[0], res[1], ("value", "gradient"), (top, top if case["name"] != "ent" else top ** 2)):
        expect(a.shape == b.shape, "%s has another shape with the wrapper", w)
        judge.close_array(b.detach().double().numpy(), a.detach().double().numpy(), (1e-5 if h.f32 else 1e-10) * t, w + " with the wrapper")
    return h.labels() + [case["name"], case["wrap"]]


@st.composite
def long_case(draw):
    c = draw(huge.huge_case(kinds=("lc", "sm"), scales=("soft", "mid"), styles=("normal",), max_e=1500))
    c.update(draw(wrap_bits()))
    c["max_size"] = draw(st.sampled_from([1, 5, 60, 200, 1000, 10 ** 4, 10 ** 5]))
    c["name"] = draw(st.sampled_from(["log", "log", "max", "ent"]))
    c["k"] = 1
    return c


def subs(tier):
    return [
        Sub("product", product_case(), product, 4000, 60000),
        Sub("chain", chain_case(), model, 1200, 16000),
        Sub("sampled", product_case(), sampled, 300, 4000),
        Sub("large", large_case(), product, 120, 2000),
        Sub("long-chain", long_case(), long_model, 60, 1000),
    ]
