"""C16: the sparsemax semiring against the projection problem it is defined by."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import judge, kinds as K
from ..runner import Sub
from ..sut import expect, sut, ts

ID = "C16"
RULE = (
    "a case is a score tensor with the dimension to sum over, or a chain model with a "
    "direction; non-trivial when the summed dimension has at least two entries (or the "
    "chain at least two paths) and the scores are not all zero"
)
ASSUMPTIONS = ["second derivatives are judged only where the projection's support is locally constant"]


def project(v):
    "Euclidean projection of a vector onto the simplex: the threshold by bisection, then exactly."
    lo, hi = v.max() - 1.0, v.max()  # the weights above lo sum to at least one, those above hi to none
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if np.maximum(v - mid, 0).sum() >= 1.0:
            lo = mid
        else:
            hi = mid
    s = v > lo
    tau = (v[s].sum() - 1.0) / s.sum()
    return np.maximum(v - tau, 0), tau


def algebra(case):
    shape, dim = case["shape"], case["dim"]
    n = int(np.prod(shape))
    x = K.decode(case["vals"], n, case["prof"]).reshape(shape)
    if case["zero"]:  # some entries are the semiring's zero
        hit = np.frombuffer(bytes.fromhex(case["vals"]), dtype=np.uint8).reshape(shape) % 5 == 4
        x = np.where(hit, -1e5, x)
    if case.get("edge") and shape[dim] > 1:  # one entry per row just above or below the threshold
        rows = np.moveaxis(x, dim, -1)
        at = case["wseed"] % shape[dim]
        for idx in np.ndindex(*rows.shape[:-1]):
            rest = np.delete(rows[idx], at)
            if rest.max() > -9e4:
                rows[idx][at] = project(rest)[1] + case["edge"]
    f32 = case["dtype"] == "f32"
    tol = (1e-4 if f32 else 1e-9) * (1 + (np.abs(x[x > -9e4]).max() if (x > -9e4).any() else 1e5 if f32 else 1e3))
    dt = torch.float32 if f32 else torch.float64
    t = torch.tensor(x, dtype=dt)
    x = t.double().numpy()
    if case["layout"] == "rev":
        t = K.lay_out(t, "rev")
    t.requires_grad_(True)
    S = ts().SparseMaxSemiring
    v = sut(lambda: S.sum(t, dim=dim) if case["kw"] else S.sum(t, dim))
    moved = np.moveaxis(x, dim, -1)
    expect(tuple(v.shape) == moved.shape[:-1], "sum of shape %s along %d has shape %s", tuple(shape), dim, tuple(v.shape))
    rng = np.random.RandomState(case["wseed"])
    g0 = torch.tensor(rng.randint(-4, 5, moved.shape[:-1]) / 2.0, dtype=dt)
    r = torch.tensor(rng.randint(-4, 5, shape) / 2.0, dtype=dt)
    (g,) = sut(torch.autograd.grad, v, t, g0, create_graph=True)
    expect(tuple(g.shape) == tuple(shape), "gradient has shape %s", tuple(g.shape))
    inner = (g * r).sum()
    if inner.requires_grad:
        h = sut(torch.autograd.grad, inner, t, allow_unused=True)[0]
    else:
        h = None
    h = np.zeros(shape) if h is None else h.double().numpy()
    gm = np.moveaxis(g.detach().double().numpy(), dim, -1)
    hm = np.moveaxis(h, dim, -1)
    rm = np.moveaxis(r.double().numpy(), dim, -1)
    vv = v.detach().double().numpy()
    out = ["dims:%d" % len(shape), "axis:last" if dim % len(shape) == len(shape) - 1 else "axis:other", case["dtype"]]
    sparse = dense = kink = False
    for idx in np.ndindex(*moved.shape[:-1]):
        row = moved[idx]
        w, tau = project(row)
        if f32 and row.max() < -9e4:  # single precision cannot resolve weights up there
            expect(vv[idx] < -9e4, "sum of zeros is %r", vv[idx])
            kink = True
            continue
        rtol = tol
        judge.close(vv[idx], float(w @ row - 0.5 * w @ w), rtol, "sum of %s" % np.round(row, 4).tolist())
        c = float(g0[idx])
        judge.close_array(gm[idx], c * w, max(rtol, 1e-9) * (1 + abs(c)), "projection of %s" % np.round(row, 4).tolist())
        if np.abs(row - tau).min() < (1e-3 if f32 else 1e-7) * (1 + np.abs(row).max()):
            kink = True
        else:
            s = w > 0
            want = np.where(s, rm[idx] - rm[idx][s].mean(), 0.0) * c
            judge.close_array(hm[idx], want, 1e-5 if f32 else 1e-9, "second derivative at %s" % np.round(row, 4).tolist())
        sparse |= 0 < (w > 0).sum() < len(w)
        dense |= (w > 0).sum() > 1
    if shape[dim] < 2:
        out.append("trivial:single-entry")
    elif not case["vals"].strip("0"):
        out.append("trivial:zero")
    return out + [n for n, f in (("sparse", sparse), ("several-in-support", dense), ("at-kink", kink), ("with-zero", case["zero"])) if f]


def chain_marginals(x, lt):
    st_ = ts().LinearChain(ts().SparseMaxSemiring)
    m = sut(st_.marginals, x, lengths=lt)
    return m


def chain_sum(x, lt):
    r = sut(ts().LinearChain(ts().SparseMaxSemiring).sum, x, lengths=lt)
    return r[0] if isinstance(r, tuple) else r


def chain(case):
    bt = K.Built(case)
    N, C = bt.dims
    x = bt.x
    rng = np.random.RandomState(case["wseed"])
    m = chain_marginals(x, bt.lt)
    rows = judge.event_tensor(m, bt, "sparsemax marginals").reshape(bt.B, N - 1, C, C)
    tol = 1e-4 if bt.f32 else 1e-8
    out = judge.base_labels(case, bt)
    for b in bt.items():
        l = bt.lens[b]
        p = rows[b]
        expect((p > -tol).all(), "item %d has a negative marginal %r", b, float(p.min()))
        judge.close_array(p[l - 1:], np.zeros_like(p[l - 1:]), 0 if not bt.f32 else 1e-12, "padding marginals of item %d" % b)
        for n in range(l - 1):
            judge.close(p[n].sum(), 1.0, tol, "total marginal of item %d position %d" % (b, n))
            if n:
                judge.close_array(p[n].sum(0), p[n - 1].sum(1), tol, "flow of item %d through position %d" % (b, n))
        if (p > tol).sum() > l - 1 and l > 1:
            out.append("several-paths")
    # derivative of the value is the marginals; derivative of the marginals is right too
    if not bt.f32 and max(bt.exact(b).scale for b in bt.items()) < 1e3:
        # moved off exact ties: at a point where several kinks meet the one-sided derivatives
        # can agree with each other and still say nothing about the derivative at the point
        base = torch.tensor(bt.phi.reshape(x.shape) + rng.rand(*x.shape) * 0.01)
        d = torch.tensor(rng.randint(-3, 4, x.shape) / 4.0)
        r = torch.tensor(rng.randint(-3, 4, x.shape) / 4.0)
        h = 1e-5
        f = lambda t: (chain_sum(base + t * d, bt.lt).detach(), (chain_marginals(base + t * d, bt.lt) * r).sum((1, 2, 3)).detach())
        plus, mid, minus = f(h), f(0.0), f(-h)
        leaf = base.clone().requires_grad_(True)
        mm = chain_marginals(leaf, bt.lt)
        first = (mm.detach() * d).sum((1, 2, 3))
        inner = (mm * r).sum()
        if inner.requires_grad:
            g = sut(torch.autograd.grad, inner, leaf, allow_unused=True)[0]
            second = torch.zeros(bt.B) if g is None else (g * d).sum((1, 2, 3))
        else:
            second = torch.zeros(bt.B)
        for b in bt.items():
            for order, ad, what in ((0, first, "sum"), (1, second, "marginals")):
                up, down = (plus[order][b] - mid[order][b]) / h, (mid[order][b] - minus[order][b]) / h
                if abs(float(up - down)) > 1e-3:
                    out.append("kink:" + what)
                    continue
                judge.close(float(ad[b]), float((up + down) / 2), 3e-3, "directional derivative of the sparsemax %s of item %d" % (what, b))
                if order and abs(float(ad[b])) > 1e-6:
                    out.append("curved")
    # scaled up, only the best structure remains
    gaps = []
    for b in bt.items():
        s = np.sort(bt.exact(b).scores)[::-1]
        gaps.append(s[0] - s[1] if len(s) > 1 else np.inf)
    top = max(1.0, max(bt.exact(b).scale for b in bt.items()))
    need = 8.0 * N + 16
    factor = need / min(gaps) if min(gaps) > 0 else np.inf
    factor = max(factor, 1.0)
    if factor * top < 2e4:
        big = torch.tensor(bt.phi.reshape(x.shape) * factor)
        rows = chain_marginals(big, bt.lt).detach().numpy().reshape(bt.B, -1)
        for b in bt.items():
            ex = bt.exact(b)
            judge.close_array(rows[b], ex.M[int(np.argmax(ex.scores))], 1e-9, "marginals of item %d scaled by %.4g" % (b, factor))
        out.append("scaled-to-argmax")
    return sorted(set(out))


@st.composite
def tensor_case(draw):
    rank = draw(st.integers(1, 4))
    shape = [draw(st.integers(1, 6 if rank < 3 else 4)) for _ in range(rank)]
    dim = draw(st.integers(-rank, rank - 1))
    if draw(st.integers(0, 7)):
        shape[dim] = max(2, shape[dim])
    n = int(np.prod(shape))
    return {
        "shape": shape,
        "dim": dim,
        "kw": draw(st.booleans()),
        "zero": draw(st.integers(0, 3)) == 3,
        "layout": draw(st.sampled_from(["c", "rev"])),
        "prof": draw(st.sampled_from(["dyadic", "jitter", "ties", "tiny", "wide"])),
        "dtype": draw(st.sampled_from(["f64", "f64", "f32"])),
        "wseed": draw(st.integers(0, 10 ** 6)),
        "edge": draw(st.sampled_from([None, None, None, -1e-2, -1e-4, 1e-6, 4e-6, 1e-5, 1e-4, 1e-3, 1e-2])),
        "vals": draw(st.binary(min_size=n, max_size=n)).hex(),
    }


@st.composite
def long_case(draw):
    "Long vectors, with up to all entries in the support."
    k = draw(st.sampled_from([7, 9, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 257]))
    shape = draw(st.sampled_from([[k], [2, k], [k, 2], [1, k, 2], [k, 1, 1]]))
    n = int(np.prod(shape))
    rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
    d = shape.index(k)
    return {
        "shape": shape,
        "dim": d - len(shape) if draw(st.booleans()) else d,
        "kw": draw(st.booleans()),
        "zero": draw(st.integers(0, 5)) == 5,
        "layout": draw(st.sampled_from(["c", "rev"])),
        "prof": draw(st.sampled_from(["micro", "micro", "tiny", "ties", "dyadic", "jitter"])),
        "dtype": draw(st.sampled_from(["f64", "f64", "f32"])),
        "wseed": draw(st.integers(0, 10 ** 6)),
        "edge": draw(st.sampled_from([None, None, None, -1e-2, -1e-4, 1e-6, 4e-6, 1e-5, 1e-4, 1e-3, 1e-2])),
        "vals": rng.bytes(n).hex(),
    }


@st.composite
def chain_case(draw):
    c = draw(K.model_case(kinds=("lc",), table="small", max_b=3, profiles=("jitter", "dyadic", "ties", "tiny", "np")))
    c["wseed"] = draw(st.integers(0, 10 ** 6))
    return c


def subs(tier):
    return [
        Sub("algebra", tensor_case(), algebra, 4000, 60000),
        Sub("long", long_case(), algebra, 250, 4000),
        Sub("chain", chain_case(), chain, 3000, 40000),
    ]
