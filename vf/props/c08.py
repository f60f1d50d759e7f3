"""C08: padding and the rest of the batch do not matter (metamorphic)."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import huge, judge, kinds as K
from ..runner import Sub
from ..sut import expect, sut

ID = "C08"
QUICK = 1.5
RULE = (
    "a case is a batch of items of different lengths whose padding is filled with arbitrary "
    "finite values, and a quantity; it is non-trivial when some item is padded or the batch "
    "has at least two items, and some item has at least two structures"
)
GARBAGE = [0.0, 1.0, -7.0, 60.0, -60.0, 1e3, -1e3, 3e4, -1e9, 1e6, -1e6, 1e12, -1e12, 1e20, 1e30, -1e30]
Q_T = ["partition", "marginals", "max", "argmax", "kmax", "topk", "entropy", "count",
       "cross_entropy", "kl", "log_prob", "grad", "sample"]
Q_C = ["partition", "marginals", "max", "argmax", "kmax", "entropy", "grad"]
Q_N = ["partition", "marginals", "log_prob", "grad"]
EPS = 1e-5  # the non-projective model's documented smoothing of arc weights


def crop_dims(kind, dims, l):
    d = list(dims)
    d[0] = l - 1 if kind == "sm" else l
    return d


def crop(kind, dims, x, l):
    "x: event tensor(s) of one item without batch dimension -> the unpadded item."
    if kind == "lc":
        return x[: l - 1]
    if kind == "sm":
        return x[: l - 1]
    if kind in ("dep", "np", "tree"):
        return x[:l, :l]
    t, r, o = x
    return (t[:l], r, o)


def inside(kind, dims, l):
    "0/1 event array: the parts available to an item of length l."
    sh = K.event_shape(kind, dims)
    if kind == "cfg":
        N, NT, T = dims
        m = np.ones(sh)
        m[l * T: N * T] = 0
        return m
    m = np.zeros(sh)
    if kind == "lc":
        m[: l - 1] = 1
    elif kind == "sm":
        for i in range(l - 1):
            m[i, 1: l - i] = 1
    else:
        m[:l, :l] = 1
    if kind == "tree":  # spans that end before they begin
        m[np.tril_indices(len(m), -1)] = 0
    return m.reshape(-1)


def singles_ok(kind, l):
    return not (kind in ("lc", "sm") and l == 1)


class Pair:
    "The padded batch and the unpadded single items, from one case."

    def __init__(self, case, key):
        kind, dims = case["kind"], case["dims"]
        bt = K.Built(case, key)
        self.bt, self.kind, self.dims = bt, kind, dims
        phi = bt.phi.copy()
        g = case["garbage"]
        for b in bt.items():
            m = inside(kind, dims, bt.lens[b])
            out = np.nonzero(m == 0)[0]
            # segment models: parts reaching past the end are padding too
            for n, e in enumerate(out):
                phi[b, e] = GARBAGE[g[(n + b) % len(g)]]
        t = torch.tensor(phi, dtype=bt.dtype)
        self.leaf = t.clone().requires_grad_(True)
        self.x = self._shape(self.leaf * 1.0)
        self.dist = sut(K.make, kind, dims, self.x, bt.lt)

    def _shape(self, t):
        if self.kind == "cfg":
            return tuple(p.contiguous() for p in K.split_cfg(t, self.dims))
        return t.reshape((t.shape[0],) + K.event_shape(self.kind, self.dims))

    def single(self, b):
        l = self.bt.lens[b]
        leaf = torch.tensor(self.bt.phi[b], dtype=self.bt.dtype).requires_grad_(True)
        x = self._shape((leaf * 1.0).unsqueeze(0))
        if self.kind == "cfg":
            x = tuple(p.unsqueeze(0).contiguous() for p in crop("cfg", self.dims, tuple(p[0] for p in x), l))
        else:
            x = crop(self.kind, self.dims, x[0], l).unsqueeze(0).contiguous()
        return leaf, sut(K.make, self.kind, crop_dims(self.kind, self.dims, l), x, None)


def scalar(d, q, other, k):
    if q in ("partition", "max", "entropy", "count"):
        return sut(lambda: getattr(d, q))
    if q == "kmax":
        return sut(d.kmax, k)
    return sut(getattr(d, q), other)


def ev(p, t, dims, lead):
    return K.events(p.kind, dims, t, lead)


def check(case):
    kind, dims, q, k = case["kind"], case["dims"], case["q"], case["k"]
    p = Pair(case, "vals")
    bt = p.bt
    p2 = Pair(case, "vals2")
    B = bt.B
    out = ["q:" + q] + judge.base_labels(case, bt)
    full = K.full_len(kind, dims)
    if B == 1 and bt.lens[0] == full:
        out.append("trivial:nothing-to-ignore")
    rtol = 3e-5 if bt.f32 else 1e-9
    if q in ("partition", "max", "entropy", "count", "kmax", "cross_entropy", "kl"):
        v = scalar(p.dist, q, p2.dist, k).detach().double()
        v = v.reshape(-1, B).numpy()
        for b in bt.items():
            if not singles_ok(kind, bt.lens[b]):
                continue
            _, s1 = p.single(b)
            _, s2 = p2.single(b)
            w = scalar(s1, q, s2, k).detach().double().reshape(-1).numpy()
            tol = 20 * rtol * (bt.exact(b).scale + p2.bt.exact(b).scale + np.abs(np.where(w > -3e4, w, 0)).max())
            both = (w > -3e4) | (v[:, b] > -3e4)
            judge.close_array(np.where(both, v[:, b], 0), np.where(both, w, 0), tol, "%s of item %d (length %d of %d) vs the item alone" % (q, b, bt.lens[b], full))
    elif q in ("marginals", "argmax"):
        t = sut(lambda: getattr(p.dist, q))
        a = ev(p, t, dims, (B,))
        for b in bt.items():
            l = bt.lens[b]
            m = inside(kind, dims, l)
            judge.close_array(a[b] * (1 - m), np.zeros(bt.E), 1e-12, "%s in the padding of item %d" % (q, b))
            if not singles_ok(kind, l):
                continue
            t1 = sut(lambda: getattr(p.single(b)[1], q))
            if kind == "cfg":
                w = ev(p, t1, None, (1,))[0]
                N, NT, T = dims
                got = np.concatenate([a[b][: l * T], a[b][N * T:]])
            else:
                w = t1.detach().double().numpy()[0].reshape(-1)
                got = crop(kind, dims, a[b].reshape(K.event_shape(kind, dims)), l).reshape(-1)
            if q == "argmax" and case["prof"] != "jitter":
                M = bt.exact(b)
                i = judge.legal(a[b], bt, b, "argmax")
                judge.close(M.scores[i[0]], M.max, 2 * bt.tol(b), "argmax score of item %d" % b)
            else:
                judge.close_array(got, w, rtol * 10 * bt.exact(b).scale, "%s of item %d (length %d) vs the item alone" % (q, b, l))
    elif q == "topk":
        a = ev(p, sut(p.dist.topk, k), dims, (k, B))
        for b in bt.items():
            for i in range(min(k, len(bt.exact(b).M))):
                judge.legal(a[i, b], bt, b, "top-k entry %d" % i)
    elif q == "sample":
        a = ev(p, sut(p.dist.sample, (4,)), dims, (4, B))
        for b in bt.items():
            for i in range(4):
                judge.legal(a[i, b], bt, b, "sample %d" % i)
    elif q == "log_prob":
        e = np.stack([bt.exact(b).M[case["k"] * 7 % len(bt.exact(b).M)] for b in bt.items()])
        v = sut(p.dist.log_prob, torch.tensor(e).reshape((B,) + K.event_shape(kind, dims)))
        for b in bt.items():
            i = case["k"] * 7 % len(bt.exact(b).M)
            judge.close(v[b].item(), bt.exact(b).logp[i], 2 * bt.tol(b), "log-probability in item %d" % b)
    elif q == "grad":
        # gradient of item b's entropy + marginals: only inside item b
        d = p.dist
        b = case["k"] % B
        obj = sut(lambda: d.entropy)[b] + sut(lambda: d.partition)[b]
        if kind != "cfg":
            obj = obj + (sut(lambda: d.marginals)[b] ** 2).sum()
        g = sut(torch.autograd.grad, obj, p.leaf, allow_unused=True)[0]
        g = np.zeros((B, bt.E)) if g is None else g.double().numpy()
        for c in bt.items():
            m = inside(kind, dims, bt.lens[c]) if c == b else np.zeros(bt.E)
            judge.close_array(g[c] * (1 - m), np.zeros(bt.E), 1e-12, "gradient of item %d's results outside the item, at item %d" % (b, c))
    return out


def smoothing(p, b):
    "Non-projective models: how far smoothed arcs (also from padding words) may move results."
    N, l = p.dims[0], p.bt.lens[b]
    low = np.exp(-p.bt.phi[b].reshape(N, N)[:l, :l].min())
    return 4 * N * N * EPS * max(1.0, low) + (3e-3 if p.bt.f32 else 1e-6)


def nonproj(case):
    "The non-projective model, up to its smoothing."
    q = case["q"]
    p = Pair(case, "vals")
    bt, N, B = p.bt, p.dims[0], p.bt.B
    if q in ("partition", "marginals"):
        v = sut(lambda: getattr(p.dist, q)).detach().double().numpy()
        for b in bt.items():
            l, tol = bt.lens[b], smoothing(p, b)
            w = sut(lambda: getattr(p.single(b)[1], q)).detach().double().numpy()[0]
            if q == "partition":
                judge.close(v[b], w, tol, "non-projective partition of item %d (length %d of %d) vs the item alone" % (b, l, N))
                continue
            m = inside("np", p.dims, l).reshape(N, N)
            judge.close_array(v[b] * (1 - m), np.zeros((N, N)), 1e-12, "non-projective marginals in the padding of item %d" % b)
            judge.close_array(v[b][:l, :l], w, tol, "non-projective marginals of item %d (length %d of %d) vs the item alone" % (b, l, N))
    elif q == "log_prob":
        pick = [case["k"] * 7 % len(bt.exact(b).M) for b in bt.items()]
        e = np.stack([bt.exact(b).M[pick[b]] for b in bt.items()])
        v = sut(p.dist.log_prob, torch.tensor(e).reshape(B, N, N))
        for b in bt.items():
            judge.close(v[b].item(), bt.exact(b).logp[pick[b]], smoothing(p, b), "non-projective log-probability in item %d" % b)
    else:
        b = case["k"] % B
        obj = sut(lambda: p.dist.partition)[b] + (sut(lambda: p.dist.marginals)[b] ** 2).sum()
        g = sut(torch.autograd.grad, obj, p.leaf)[0].double().numpy()
        for c in bt.items():
            m = inside("np", p.dims, bt.lens[c]) if c == b else np.zeros(bt.E)
            judge.close_array(g[c] * (1 - m), np.zeros(bt.E), 1e-12, "gradient of item %d's results outside the item, at item %d" % (b, c))
    return ["q:" + q] + judge.base_labels(case, bt)


def large(case):
    "Sizes beyond enumeration: one item of the batch, alone and unpadded, is the oracle."
    kind, dims, q = case["kind"], case["dims"], case["q"]
    h = huge.Huge(case)
    phi, dt = h.phi.copy(), h.dtype
    rng = np.random.RandomState(case["vseed"] + 7)
    for b in h.items():
        out = np.nonzero(inside(kind, dims, h.lens[b]) == 0)[0]
        phi[b, out] = np.array(GARBAGE)[rng.randint(0, len(GARBAGE), len(out))]

    def build(rows, d, lens):
        t = torch.tensor(rows, dtype=dt)
        x = tuple(p.contiguous() for p in K.split_cfg(t, d)) if kind == "cfg" else t.reshape((len(rows),) + K.event_shape(kind, d))
        return sut(K.make, kind, d, x, lens)

    d = build(phi, dims, torch.tensor(h.lens))
    full = K.full_len(kind, dims)
    v = sut(lambda: getattr(d, q))
    v = v.detach().double().numpy() if q in ("partition", "max", "entropy") else K.events(kind, dims, v, (h.B,))
    for b in h.judged():
        l = h.lens[b]
        if q in ("marginals", "argmax"):
            m = inside(kind, dims, l)
            judge.close_array(v[b] * (1 - m), np.zeros(h.E), 1e-12, "%s in the padding of item %d" % (q, b))
        if not singles_ok(kind, l):
            continue
        one = h.phi[b]
        sd = crop_dims(kind, dims, l)
        if kind == "cfg":
            one = np.concatenate([p.reshape(-1) for p in crop(kind, dims, K.split_cfg(one, dims), l)])
        else:
            one = crop(kind, dims, one.reshape(K.event_shape(kind, dims)), l).reshape(-1)
        w = sut(lambda: getattr(build(one[None], sd, None), q))
        if q in ("marginals", "argmax"):
            w = K.events(kind, sd, w, (1,))[0]
            if kind == "cfg":
                N, NT, T = dims
                got = np.concatenate([v[b][: l * T], v[b][N * T:]])
            else:
                got = crop(kind, dims, v[b].reshape(K.event_shape(kind, dims)), l).reshape(-1)
            if q == "argmax":  # another structure only if it ties
                judge.close(float(got @ one), float(w @ one), 2 * h.tol(b), "score of the argmax of item %d (length %d of %d) vs the item alone" % (b, l, full))
                huge.member(h, b, v[b], "argmax")
            else:
                judge.close_array(got, w, h.ptol(b) * (l if kind == "cfg" else 1), "marginals of item %d (length %d of %d) vs the item alone" % (b, l, full))
        else:
            judge.close(v[b], w.detach().double().item(), 10 * h.tol(b), "%s of item %d (length %d of %d) vs the item alone" % (q, b, l, full))
    out = [x for x in h.labels() if not x.startswith("trivial")] + ["q:" + q]
    return out + (["trivial:nothing-to-ignore"] if h.B == 1 and h.lens[0] == full else [])


@st.composite
def large_case(draw):
    c = draw(huge.huge_case(scales=("soft", "mid", "sharp"), styles=huge.PLAIN, max_e=4000, layouts=("c",)))
    kind, full = c["kind"], K.full_len(c["kind"], c["dims"])
    lo = min(K.min_len(kind), full)
    if c["lens"] is None:
        c["B"] = max(2, c["B"])
        c["lens"] = [full - draw(st.integers(0, full - lo)) for _ in range(c["B"])]
        if K.needs_full(kind):
            c["lens"][draw(st.integers(0, c["B"] - 1))] = full
    c["q"] = draw(st.sampled_from(["partition", "max", "entropy", "marginals", "argmax"]))
    return c


@st.composite
def np_case(draw):
    N, mr = draw(st.sampled_from([d for d in K.SMALL["np"] if d[0] > 1]))
    B = draw(st.integers(1, 4))
    n = B * N * N
    return {
        "kind": "np", "dims": [N, mr], "B": B, "lens": [draw(st.integers(1, N)) for _ in range(B)],
        "prof": draw(st.sampled_from(["np", "tiny", "jitterpos"])), "dtype": draw(st.sampled_from(["f64", "f64", "f32"])),
        "vals": draw(st.binary(min_size=n, max_size=n)).hex(),
        "garbage": draw(st.lists(st.integers(0, len(GARBAGE) - 1), min_size=1, max_size=6)),
        "q": draw(st.sampled_from(Q_N)), "k": draw(st.integers(1, 5)),
    }


@st.composite
def pad_case(draw, table="small"):
    c = draw(K.model_case(table=table, min_b=2, max_b=4, profiles=("jitter", "dyadic", "ties", "neg"), two=True))
    kind, dims, B = c["kind"], c["dims"], c["B"]
    full = K.full_len(kind, dims)
    lo = min(K.min_len(kind), full)
    if c["lens"] is None:
        c["lens"] = [full - draw(st.integers(0, full - lo)) for _ in range(B)]
        if K.needs_full(kind):
            c["lens"][draw(st.integers(0, B - 1))] = full
    c["garbage"] = draw(st.lists(st.integers(0, len(GARBAGE) - 1), min_size=1, max_size=6))
    c["q"] = draw(st.sampled_from(Q_C if kind == "cfg" else Q_T))
    c["k"] = draw(st.integers(1, 5))
    return c


def subs(tier):
    return [
        Sub("alone", pad_case(), check, 5000, 60000),
        Sub("nonproj", np_case(), nonproj, 600, 8000),
        Sub("huge", large_case(), large, 250, 4000),
    ]
