"""C15: gradients of every result, against autograd through the enumerated definition."""
import itertools

import numpy as np
import torch
from hypothesis import strategies as st

from .. import huge, judge, kinds as K
from ..runner import Sub
from ..sut import expect, sut, ts

ID = "C15"
QUICK = 1.5
RULE = (
    "a case is a model case, a function from free parameters to potentials, a result, an "
    "optional earlier query on the same model and the order of the derivative; non-trivial "
    "when some item has at least two structures and the potentials are not all zero"
)
QS = ["partition", "entropy", "marginals", "log_prob", "cross_entropy", "kl", "max", "kmax"]
QS_CFG = ["partition", "entropy", "marginals", "max", "kmax"]


def through(theta, how):
    if how == "id":
        return theta * 1.0
    if how == "tanh":
        return 4.0 * torch.tanh(theta / 4.0)
    if how == "scale":
        return theta * (1.0 + 0.5 * torch.sin(torch.arange(theta.numel(), dtype=theta.dtype)).reshape(theta.shape))
    if how == "shared":
        return theta + 0.25 * theta.flip(-1)
    raise KeyError(how)


def samples(case):
    return int(np.prod(case.get("lead", ()), dtype=int))


def oracle_value(case, bt, phi, phi2, weights, b):
    M = torch.tensor(K.support(bt.kind, bt.dims, bt.lens[b]))
    s = M @ phi[b]
    lp = s - torch.logsumexp(s, 0)
    q = case["q"]
    if q == "partition":
        return torch.logsumexp(s, 0)
    if q == "entropy":
        return -(lp.exp() * lp).sum()
    if q == "marginals":
        return ((lp.exp() @ M) * weights[b]).sum()
    if q == "log_prob":
        return sum((1.0 + i) * lp[(case["pick"] + 7 * i) % len(M)] for i in range(samples(case)))
    if q in ("cross_entropy", "kl"):
        s2 = M @ phi2[b]
        lq = s2 - torch.logsumexp(s2, 0)
        ce = -(lp.exp() * lq).sum()
        return ce if q == "cross_entropy" else ce + (lp.exp() * lp).sum()
    if q == "max":
        return s.max()
    k = min(case["k"], len(M))
    return torch.topk(s, k)[0][k - 1]


def shape(bt, t):
    if bt.kind == "cfg":
        return tuple(p.contiguous() for p in K.split_cfg(t, bt.dims))
    return t.reshape((bt.B,) + K.event_shape(bt.kind, bt.dims))


def library_value(case, bt, phi, phi2, weights):
    d = sut(K.make, bt.kind, bt.dims, shape(bt, phi), bt.lt)
    q = case["q"]
    if case.get("order"):
        sut(lambda: getattr(d, case["order"]))
    if q in ("partition", "entropy", "max"):
        v = sut(lambda: getattr(d, q))
        return [v[b] for b in bt.items()]
    if q == "marginals":
        m = sut(lambda: d.marginals)
        if bt.kind == "cfg":
            flat = torch.cat([p.reshape(bt.B, -1) for p in m[:3]], -1)
        else:
            flat = m.reshape(bt.B, -1)
        v = (flat * weights).sum(-1)
        return [v[b] for b in bt.items()]
    if q == "log_prob":
        lead, n = tuple(case.get("lead", ())), samples(case)
        ev = []
        for i in range(n):
            for b in bt.items():
                M = bt.exact(b).M
                ev.append(M[(case["pick"] + 7 * i) % len(M)])
        v = sut(d.log_prob, torch.tensor(np.stack(ev)).reshape(lead + (bt.B,) + K.event_shape(bt.kind, bt.dims)))
        expect(tuple(v.shape) == lead + (bt.B,), "log-probability has shape %r", tuple(v.shape))
        v = v.reshape(n, bt.B)
        return [sum((1.0 + i) * v[i, b] for i in range(n)) for b in bt.items()]
    if q in ("cross_entropy", "kl"):
        d2 = sut(K.make, bt.kind, bt.dims, shape(bt, phi2), bt.lt)
        v = sut(getattr(d, q), d2)
        return [v[b] for b in bt.items()]
    v = sut(d.kmax, case["k"])
    out = []
    for b in bt.items():
        k = min(case["k"], len(bt.exact(b).M))
        out.append(v[k - 1, b])
    return out


def check(case):
    bt = K.Built(dict(case, dtype="f64", layout="c"))
    b2 = K.Built(dict(case, dtype="f64", layout="c", vals=case["vals2"]))
    q = case["q"]
    rng = np.random.RandomState(case["wseed"])
    weights = torch.tensor(rng.randint(-8, 9, (bt.B, bt.E)) / 4.0)
    coef = torch.tensor(rng.randint(1, 6, bt.B) / 2.0)
    direction = [torch.tensor(rng.randint(-4, 5, (bt.B, bt.E)) / 4.0) for _ in range(2)]
    res = []
    for lib in (False, True):
        t1 = torch.tensor(bt.phi, requires_grad=True)
        t2 = torch.tensor(b2.phi, requires_grad=True)
        phi, phi2 = through(t1, case["how"]), through(t2, case["how"])
        if lib:
            vals = library_value(case, bt, phi, phi2, weights)
        else:
            vals = [oracle_value(case, bt, phi, phi2, weights, b) for b in bt.items()]
        obj = sum(c * v for c, v in zip(coef, vals))
        wrt = [t1, t2] if q in ("cross_entropy", "kl") else [t1]
        second = case["second"] and q in ("partition", "entropy", "marginals", "log_prob", "cross_entropy", "kl")
        call = sut if lib else (lambda f: f())
        g = call(lambda: torch.autograd.grad(obj, wrt, create_graph=second, allow_unused=True))
        g = [torch.zeros_like(w) if x is None else x for x, w in zip(g, wrt)]
        out = [float(obj)] + [x.detach().numpy() for x in g]
        if second:
            o2 = sum((x * d).sum() for x, d in zip(g, direction))
            if o2.requires_grad:
                h = call(lambda: torch.autograd.grad(o2, wrt, allow_unused=True))
                out += [np.zeros(w.shape) if x is None else x.numpy() for x, w in zip(h, wrt)]
            else:
                out += [np.zeros(w.shape) for w in wrt]
        res.append(out)
    scale = 1 + max(bt.exact(b).scale + b2.exact(b).scale for b in bt.items())
    for i, (w, g) in enumerate(zip(*res)):
        kind = "value" if i == 0 else "gradient" if i <= len(wrt) else "second derivative"
        tol = 1e-8 * scale * scale * 10 * (1 if i <= len(wrt) else 10)
        judge.close_array(np.asarray(g), np.asarray(w), tol, "%s of %s" % (kind, q))
    out = judge.base_labels(dict(case, dtype="f64"), bt) + ["q:" + q, "via:" + case["how"]]
    if second:
        out.append("second-order")
    return out


def float32(case):
    "Single precision: gradient of the log-partition equals the marginals."
    bt = K.Built(dict(case, layout="c", dtype="f32"))
    if bt.kind == "cfg":
        return ["trivial:grammar"]
    x = bt.x.clone().requires_grad_(True)
    d = sut(K.make, bt.kind, bt.dims, x, bt.lt)
    first = case["second"]
    if first:
        m = sut(lambda: d.marginals)
    g = sut(lambda: torch.autograd.grad(d.partition.sum(), x, retain_graph=True)[0])
    m = sut(lambda: d.marginals)
    judge.close_array(g.double().numpy(), m.detach().double().numpy(), 1e-4 * max(bt.exact(b).scale for b in bt.items()), "gradient of the log-partition")
    return judge.base_labels(case, bt)


def compare(make, leaves, q, weights, second, tol, what):
    "Gradients of one objective, by the library and by the definition."
    res = []
    for lib in (False, True):
        ws = [t.clone().requires_grad_(True) for t in leaves]
        call = sut if lib else (lambda f: f())
        obj = call(lambda: make(lib, ws, q, weights))
        g = call(lambda: torch.autograd.grad(obj, ws, create_graph=second, allow_unused=True))
        g = [torch.zeros_like(w) if x is None else x for x, w in zip(g, ws)]
        out = [("value", obj.detach().numpy())] + [("gradient", x.detach().numpy()) for x in g]
        if second:
            o2 = sum((x * torch.cos(torch.arange(x.numel(), dtype=x.dtype)).reshape(x.shape)).sum() for x in g)
            h = call(lambda: torch.autograd.grad(o2, ws, allow_unused=True)) if o2.requires_grad else [None] * len(ws)
            out += [("second derivative", np.zeros(w.shape) if x is None else x.numpy()) for x, w in zip(h, ws)]
        res.append(out)
    for (name, w), (_, g) in zip(*res):
        judge.close_array(np.asarray(g), np.asarray(w), tol, "%s of %s of %s" % (name, q, what))


def hmm(case):
    "Gradients reach the tables of an HMM."
    C, V, N, B, lens = case["C"], case["V"], case["N"], case["B"], case["lens"]
    rng = np.random.RandomState(case["seed"])
    leaves = [torch.tensor(rng.randn(*s)) for s in ((C, C), (V, C), (C,))]
    obs = torch.tensor(rng.randint(0, V, (B, N)))
    use = lens or [N] * B
    lt = None if lens is None else torch.tensor(lens)
    weights = torch.tensor(rng.randint(-8, 9, (B, N - 1, C, C)) / 4.0)
    coef = torch.tensor(rng.randint(1, 6, B) / 2.0)

    def value(lib, ws, q, weights):
        if lib:
            d = ts().HMM(*ws, obs, lengths=lt)
            if case["order"]:
                getattr(d, case["order"])
            v = getattr(d, q)
            return (coef * ((v * weights).reshape(B, -1).sum(-1) if q == "marginals" else v)).sum()
        A, E, I = ws
        total = 0.0
        for b in range(B):
            l, o = use[b], obs[b]
            p = torch.tensor(list(itertools.product(range(C), repeat=l)))
            s = I[p[:, 0]] + E[o[0], p[:, 0]]
            for n in range(1, l):
                s = s + A[p[:, n], p[:, n - 1]] + E[o[n], p[:, n]]
            lp = s.log_softmax(0)
            if q == "marginals":
                r = lp.exp() @ sum(weights[b, n - 1, p[:, n], p[:, n - 1]] for n in range(1, l))
            else:
                r = {"partition": torch.logsumexp(s, 0), "entropy": -(lp.exp() * lp).sum(), "max": s.max()}[q]
            total = total + coef[b] * r
        return total

    compare(value, leaves, case["q"], weights, case["second"] and case["q"] != "max", 1e-7 * N * N * B, "an HMM")
    return ["q:" + case["q"], "hmm"] + (["trivial:one-state"] if C < 2 else [])


@st.composite
def hmm_case(draw):
    N = draw(st.integers(2, 4))
    B = draw(st.integers(1, 3))
    lens = [draw(st.integers(2, N)) for _ in range(B - 1)] + [N] if draw(st.booleans()) else None
    return {"N": N, "B": B, "lens": lens, "C": draw(st.integers(1, 3)), "V": draw(st.integers(1, 4)),
            "q": draw(st.sampled_from(["partition", "entropy", "marginals", "max"])), "second": draw(st.booleans()),
            "order": draw(st.sampled_from([None, "marginals", "argmax", "partition"])), "seed": draw(st.integers(0, 10 ** 6))}


def nonproj(case):
    "The non-projective model; its smoothing (1e-5 per arc) bounds the difference."
    N, mr, B, q = case["N"], case["mr"], case["B"], case["q"]
    rng = np.random.RandomState(case["seed"])
    leaf = torch.tensor(rng.uniform(-1, 1, (B, N, N)))
    weights = torch.tensor(rng.randint(-8, 9, (B, N * N)) / 4.0)
    coef = torch.tensor(rng.randint(1, 6, B) / 2.0)
    M = torch.tensor(K.support("np", [N, mr], N))
    pick = rng.randint(0, len(M), (max(1, case["lead"]), B))

    def value(lib, ws, q, weights):
        x = ws[0] * 1.0
        if lib:
            d = ts().NonProjectiveDependencyCRF(x, multiroot=bool(mr))
            if case["order"]:
                getattr(d, case["order"])
            if q == "partition":
                return (coef * d.partition).sum()
            if q == "marginals":
                return (coef * (d.marginals.reshape(B, -1) * weights).sum(-1)).sum()
            ev = M[torch.tensor(pick)].reshape(pick.shape[0], B, N, N)
            lp = d.log_prob(ev if case["lead"] else ev[0])
            return (coef * lp).sum()
        s = x.reshape(B, -1) @ M.T
        lp = s.log_softmax(-1)
        if q == "partition":
            return (coef * torch.logsumexp(s, -1)).sum()
        if q == "marginals":
            return (coef * ((lp.exp() @ M) * weights).sum(-1)).sum()
        return sum((coef * lp[torch.arange(B), torch.tensor(p)]).sum() for p in pick)

    compare(value, [leaf], q, weights, False, 2e-3 * B * len(pick), "a non-projective model")
    return ["q:" + q, "nonproj"] + (["trivial:one-tree"] if len(M) < 2 else [])


@st.composite
def nonproj_case(draw):
    return {"N": draw(st.integers(1, 4)), "mr": draw(st.integers(0, 1)), "B": draw(st.integers(1, 3)),
            "q": draw(st.sampled_from(["partition", "marginals", "log_prob"])), "lead": draw(st.integers(0, 2)),
            "order": draw(st.sampled_from([None, "marginals", "partition"])), "seed": draw(st.integers(0, 10 ** 6))}


@st.composite
def grad_case(draw):
    c = draw(K.model_case(table="small", max_b=2, profiles=("jitter", "jitter", "dyadic", "tiny"), two=True, dtypes=("f64",)))
    c["q"] = draw(st.sampled_from(QS_CFG if c["kind"] == "cfg" else QS))
    if c["q"] in ("max", "kmax"):
        c["prof"] = "jitter"
    c["k"] = draw(st.integers(1, 4))
    c["how"] = draw(st.sampled_from(["id", "tanh", "scale", "shared"]))
    if c["q"] in ("max", "kmax") and c["how"] in ("shared", "tanh"):
        c["how"] = "id"
    c["pick"] = draw(st.integers(0, 3000))
    if c["q"] == "log_prob":
        c["lead"] = draw(st.sampled_from([[], [], [1], [3], [2, 2]]))
    c["second"] = draw(st.booleans())
    c["wseed"] = draw(st.integers(0, 10 ** 6))
    o = draw(st.sampled_from([None, None, "partition", "marginals", "argmax", "entropy", "max"]))
    if o:
        c["order"] = o
    return c


def subs(tier):
    return [
        Sub("exact", grad_case(), check, 3000, 40000),
        Sub("single", grad_case(), float32, 600, 8000),
        Sub("hmm", hmm_case(), hmm, 400, 6000),
        Sub("nonproj", nonproj_case(), nonproj, 400, 6000),
        Sub("huge", huge.with_q(huge.huge_case(scales=("soft", "mid", "sharp"), styles=huge.PLAIN), ("partition", "entropy", "marginals")), huge.gradient, 80, 600),
    ]
