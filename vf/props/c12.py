"""C12: non-projective dependency model against all spanning trees."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import judge, kinds as K, oracle
from ..runner import Sub
from ..sut import expect, sut, ts

ID = "C12"
QUICK = 2.5
RULE = (
    "a case is (words, root mode, batch, lengths, potentials, dtype) of a non-projective "
    "model; non-trivial when some item has at least two trees and not all potentials are zero"
)
ASSUMPTIONS = ["arc weights may be smoothed by at most 1e-5 each; the accepted interval is computed from that"]
EPS = 1e-5


def smoothed(w, M):
    "Exact quantities with every arc (not root) weight raised by EPS."
    n = int(np.sqrt(len(w)))
    e = np.full((n, n), EPS)
    e[np.arange(n), np.arange(n)] = 0
    return oracle.Exact(M, np.log(np.exp(w) + e.ravel()))


def check(case):
    bt = K.Built(case)
    kw = {}
    lens = bt.lt
    if case["lens"] is not None and case["listlens"]:
        lens = list(case["lens"])
    d = sut(lambda: ts().NonProjectiveDependencyCRF(bt.x, lengths=lens, multiroot=bool(bt.dims[1])))
    if case["first"] == "marginals":
        m = sut(lambda: d.marginals)
        z = sut(lambda: d.partition)
    else:
        z = sut(lambda: d.partition)
        m = sut(lambda: d.marginals)
    z = judge.vector(z, bt, "log-partition")
    m = judge.event_tensor(m, bt, "marginals")
    N = bt.dims[0]
    for b in bt.items():
        l = bt.lens[b]
        ex = bt.exact(b)
        sm = smoothed(bt.phi[b], ex.M)
        num = (2e-4 if bt.f32 else 1e-7) * ex.scale
        # smoothed arcs may also come from the N - l padding words
        low = np.exp(-bt.phi[b].reshape(N, N)[:l, :l].min())
        pad = 2 * (N - l) * EPS * max(1.0, low)
        expect(
            ex.logZ - num <= z[b] <= sm.logZ + num + l * pad + (2 * N * N * EPS if l < N else 0),
            "log-partition of item %d (length %d) is %r, expected between %r and %r", b, l, float(z[b]), ex.logZ, sm.logZ)
        tol = 4 * np.abs(ex.marg - sm.marg).max() + (3e-3 if bt.f32 else 1e-6) + 2 * pad + 4 * N * EPS * max(1.0, low)
        judge.close_array(m[b], ex.marg, tol, "marginals of item %d (length %d)" % (b, l))
        mm = m[b].reshape(N, N)
        for j in range(l):
            judge.close(mm[:, j].sum(), 1.0, tol * (N + 1), "total incoming probability of word %d of item %d" % (j, b))
        if not bt.dims[1]:
            judge.close(np.diag(mm)[:l].sum(), 1.0, tol * (N + 1), "total root probability of item %d" % b)
        expect(np.abs(np.where(np.pad(np.ones((l, l)), (0, N - l)) > 0, 0, mm)).max() <= tol, "padding of item %d has probability", b)
    # events
    pick = [case["pick"] % len(bt.exact(b).M) for b in bt.items()]
    e = np.stack([bt.exact(b).M[pick[b]] for b in bt.items()])
    lead = tuple(case["lead"])
    ev = torch.tensor(np.broadcast_to(e, lead + e.shape).copy()).reshape(lead + (bt.B, N, N))
    lp = judge.vector(sut(d.log_prob, ev), bt, "log-probability", lead)
    for i in np.ndindex(*lead):
        for b in bt.items():
            judge.close(lp[i + (b,)], bt.exact(b).scores[pick[b]] - z[b], (2e-4 if bt.f32 else 1e-7) * bt.exact(b).scale, "log-probability in item %d" % b)
    return judge.base_labels(case, bt) + ["multiroot" if bt.dims[1] else "singleroot"]


def grads(case):
    "d partition / d potentials equals the marginals (both computed by the library)."
    bt = K.Built(case)
    x = bt.x.detach().clone().requires_grad_(True)
    d = sut(lambda: ts().NonProjectiveDependencyCRF(x, lengths=bt.lt, multiroot=bool(bt.dims[1])))
    g = sut(lambda: torch.autograd.grad(d.partition.sum(), x)[0])
    judge.close_array(
        g.double().numpy(), d.marginals.detach().double().numpy(),
        2e-2 if bt.f32 else 2e-3, "gradient of the log-partition vs marginals")
    return judge.base_labels(case, bt)


def exact(case):
    "The two functions behind the model, with the smoothing switched off, have no tolerance to hide in."
    bt = K.Built(case)
    N, mr = bt.dims[0], bool(bt.dims[1])
    lens = list(case["lens"]) if case["lens"] is not None and case["listlens"] else bt.lt
    z = judge.vector(sut(lambda: ts().deptree_part(bt.x, mr, lens, eps=0)), bt, "log-partition")
    m = judge.event_tensor(sut(lambda: ts().deptree_nonproj(bt.x, mr, lens, eps=0)), bt, "marginals")
    for b in bt.items():
        ex = bt.exact(b)
        tol = (1e-3 if bt.f32 else 1e-8) * ex.scale * np.exp(bt.phi[b].max() - bt.phi[b].min()) ** 0.5
        judge.close(z[b], ex.logZ, tol, "log-partition of item %d (length %d) without smoothing" % (b, bt.lens[b]))
        judge.close_array(m[b], ex.marg, 2 * tol, "marginals of item %d (length %d) without smoothing" % (b, bt.lens[b]))
    return judge.base_labels(case, bt) + ["multiroot" if mr else "singleroot"]


def matrix_tree(x, l, multiroot):
    "log of the weighted number of trees, by a determinant; x is exp-weights (n, n), root on the diagonal."
    w = x[:l, :l]
    r = torch.diagonal(w)
    off = w - torch.diag(r)
    if multiroot:
        return torch.linalg.slogdet(torch.diag(off.sum(0) + r) - off)[1]
    # one root child: the trees in which a given word is that child, summed over the words
    # (Kirchhoff with row and column of the root word removed)
    lap = torch.diag(off.sum(0)) - off
    if l == 1:
        return r[0].log()
    terms = []
    for k in range(l):
        keep = [i for i in range(l) if i != k]
        terms.append(torch.linalg.slogdet(lap[keep][:, keep])[1] + r[k].log())
    return torch.logsumexp(torch.stack(terms), 0)


def large(case):
    "Sentences beyond enumeration, by Kirchhoff's theorem per root word."
    N, mr, B = case["N"], case["mr"], case["B"]
    rng = np.random.RandomState(case["seed"])
    f32 = case["dtype"] == "f32"
    dt = torch.float32 if f32 else torch.float64
    t = torch.tensor(np.clip(rng.randn(B, N, N) * case["scale"], -4, 4), dtype=dt)
    lens = case["lens"] or [N] * B
    lt = None if case["lens"] is None else torch.tensor(lens)
    x = K.lay_out(t, case["layout"])
    d = sut(lambda: ts().NonProjectiveDependencyCRF(x, lengths=lt, multiroot=bool(mr)))
    z = sut(lambda: d.partition).detach().double().numpy()
    m = sut(lambda: d.marginals).detach().double().numpy()
    for b in range(B):
        l = lens[b]
        ref = []
        for e in (0.0, EPS):
            leaf = t[b].double().clone().requires_grad_(True)
            v = matrix_tree(leaf.exp() + e * (1 - torch.eye(N, dtype=torch.float64)), l, mr)
            ref.append((v.item(), torch.autograd.grad(v, leaf)[0].numpy()))
        (z0, m0), (z1, m1) = ref
        low = float(np.exp(-t[b, :l, :l].min()))
        num = (1e-4 if f32 else 1e-8) * N * (1 + abs(z0))
        pad = 2 * (N - l) * EPS * max(1.0, low)
        expect(z0 - num <= z[b] <= z1 + num + l * pad + (2 * N * N * EPS if l < N else 0),
               "log-partition of item %d (length %d) is %r, expected between %r and %r", b, l, float(z[b]), z0, z1)
        tol = 4 * np.abs(m0 - m1).max() + (5e-3 if f32 else 1e-6) + 2 * pad + 4 * N * EPS * max(1.0, low)
        judge.close_array(m[b], m0, tol, "marginals of item %d (length %d)" % (b, l))
    return ["multiroot" if mr else "singleroot", case["dtype"]] + (["padded"] if min(lens) < N else [])


def forbidden(case):
    "Some arcs ruled out by very low scores: they may weigh no more than the smoothing."
    N, mr, B = case["N"], case["mr"], case["B"]
    rng = np.random.RandomState(case["seed"])
    v = rng.uniform(-1, 1, (B, N, N))
    low = rng.rand(B, N, N) < case["part"]
    for b in range(B):  # one word may always head everything
        h = rng.randint(N)
        low[b, h] = False
    v[low] = case["low"]
    t = torch.tensor(v)
    d = sut(lambda: ts().NonProjectiveDependencyCRF(t.clone(), multiroot=bool(mr)))
    z = sut(lambda: d.partition).detach().numpy()
    m = sut(lambda: d.marginals).detach().numpy()
    M = K.support("np", [N, mr], N)
    for b in range(B):
        w = v[b].ravel()
        ex, sm = oracle.Exact(M, w), smoothed(w, M)
        expect(ex.logZ - 1e-8 <= z[b] <= sm.logZ + 1e-8, "log-partition of item %d is %r, expected between %r and %r", b, float(z[b]), ex.logZ, sm.logZ)
        tol = 4 * np.abs(ex.marg - sm.marg).max() + 4 * N * EPS + 1e-7
        judge.close_array(m[b].ravel(), ex.marg, tol, "marginals of item %d" % b)
    return ["multiroot" if mr else "singleroot", "forbidden"] + ([] if low.any() and N > 1 else ["trivial:nothing-forbidden"])


@st.composite
def forbidden_case(draw):
    return {"N": draw(st.integers(1, 4)), "mr": draw(st.integers(0, 1)), "B": draw(st.integers(1, 3)),
            "part": draw(st.sampled_from([0.2, 0.5, 0.8])), "low": draw(st.sampled_from([-15.0, -20.0, -50.0, -1000.0, -1e6])),
            "seed": draw(st.integers(0, 10 ** 6))}


@st.composite
def large_case(draw):
    N = draw(st.sampled_from([6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 24, 33, 40, 64, 65, 66]))
    B = draw(st.sampled_from([1, 2, 3, 5]))
    lens = [draw(st.integers(1, N)) for _ in range(B)] if draw(st.booleans()) else None
    return {"N": N, "mr": draw(st.integers(0, 1)), "B": B, "lens": lens, "scale": draw(st.sampled_from([0.2, 0.8, 1.5])),
            "dtype": draw(st.sampled_from(["f64", "f64", "f32"])), "layout": draw(st.sampled_from(["c", "rev", "grad"])),
            "seed": draw(st.integers(0, 10 ** 6))}


@st.composite
def np_case(draw):
    dims = draw(st.sampled_from(K.SMALL["np"] + [d for d in K.SMALL["np"] if d[0] > 2]))
    B = draw(st.integers(1, 3))
    lens = None
    if draw(st.booleans()):
        lens = [draw(st.integers(1, dims[0])) for _ in range(B)]
    n = B * dims[0] ** 2
    return {
        "kind": "np", "dims": dims, "B": B, "lens": lens,
        "listlens": draw(st.integers(0, 4)) == 4,
        "prof": draw(st.sampled_from(["np", "np", "tiny", "jitterpos"])),
        "dtype": draw(st.sampled_from(["f64", "f64", "f32"])),
        "layout": draw(st.sampled_from(["c", "c", "rev", "grad", "step"])),
        "first": draw(st.sampled_from(["partition", "marginals"])),
        "pick": draw(st.integers(0, 4000)),
        "lead": draw(st.sampled_from([[], [1], [3], [2, 2]])),
        "vals": draw(st.binary(min_size=n, max_size=n)).hex(),
    }


def subs(tier):
    return [
        Sub("trees", np_case(), check, 3000, 40000),
        Sub("exact", np_case(), exact, 800, 10000),
        Sub("grads", np_case(), grads, 600, 8000),
        Sub("forbidden", forbidden_case(), forbidden, 400, 6000),
        Sub("large", large_case(), large, 120, 2000),
    ]
