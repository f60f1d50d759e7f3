"""A small deterministic autoregressive model and its step-by-step reference."""
import itertools

import numpy as np
import torch
from hypothesis import strategies as st

from . import kinds as K
from .sut import ts

H = 2
STATES = ["plain", "swap", "flat", "parts", "one"]


def pack(s, t, how):
    "The state tuple handed to the library: s is n x 2 x H, t is n."
    n = s.shape[0]
    if how == "swap":
        return (t, s)
    if how == "flat":
        return (s.reshape(n, -1), t)
    if how == "parts":  # one value per item in each tensor
        return tuple(s.reshape(n, -1)[:, i] for i in range(2 * H)) + (t,)
    if how == "one":  # a single tensor
        return (torch.cat([s.reshape(n, -1), t.to(s.dtype)[:, None]], 1),)
    return (s, t)


def unpack(state, how):
    if how == "swap":
        return state[1], state[0]
    if how == "flat":
        return state[0].reshape(state[0].shape[0], 2, H), state[1]
    if how == "parts":
        return torch.stack(list(state[:-1]), 1).reshape(-1, 2, H), state[-1]
    if how == "one":
        return state[0][:, :-1].reshape(-1, 2, H), state[0][:, -1].round().long()
    return state[0], state[1]


class Spec:
    """Scores depend on the item's initial state, on every earlier token and on time."""

    def __init__(self, case):
        self.case = case
        self.C, self.N, self.B = case["C"], case["N"], case["B"]
        self.start = case["start"]
        self.normalize = case["normalize"]
        C = self.C
        rng = np.random.RandomState(case["wseed"])
        self.emb = rng.randint(-8, 9, (C, 2, H)) / 4.0
        self.W = rng.randn(2 * H, C)
        self.P = rng.randn(5, C)
        self.scale = {"flat": 0.0, "near": 1e-7, "soft": 0.3, "mid": 1.0, "sharp": 4.0, "offset": 1.0}[case["scale"]]
        self.offset = -37.5 if case["scale"] == "offset" else 0.0
        raw = np.frombuffer(bytes.fromhex(case["init"]), dtype=np.uint8)[: self.B * 2 * H]
        self.init = (raw.astype(np.int64) % 33 - 16).reshape(self.B, 2, H) / 8.0
        self.t0 = np.array(case["t0"][: self.B])
        self.dt = torch.float32 if case["dtype"] == "f32" else torch.float64
        self.tol = 2e-4 if case["dtype"] == "f32" else 1e-9

    # reference, one prefix at a time ------------------------------------
    def step_scores(self, b, prefix):
        s = self.init[b].copy()
        for tok in [self.start] + list(prefix):
            s = 0.5 * s + self.emb[tok]
        t = int(self.t0[b]) + len(prefix)
        x = self.scale * (np.tanh(s.reshape(-1)) @ self.W + self.P[t % 5]) + self.offset
        if self.normalize:
            m = x.max()
            x = x - (m + np.log(np.exp(x - m).sum()))
        return x

    def walk(self, b, seqs):
        "Scores (S, N, C) of every token at every step, each given its own prefix."
        seqs = np.asarray(seqs)
        s = np.repeat(self.init[b][None], len(seqs), 0)
        prev = np.full(len(seqs), self.start)
        out = np.zeros((len(seqs), seqs.shape[1], self.C))
        for n in range(seqs.shape[1]):
            s = 0.5 * s + self.emb[prev]
            x = self.scale * (np.tanh(s.reshape(len(seqs), -1)) @ self.W + self.P[(int(self.t0[b]) + n) % 5]) + self.offset
            if self.normalize:
                m = x.max(1, keepdims=True)
                x = x - (m + np.log(np.exp(x - m).sum(1, keepdims=True)))
            out[:, n] = x
            prev = seqs[:, n]
        return out

    def score(self, b, seqs):
        w = self.walk(b, seqs)
        return np.take_along_axis(w, np.asarray(seqs)[..., None], 2)[..., 0].sum(1)

    def table(self, b):
        "Score of every full sequence of item b."
        out = {}

        def go(prefix, acc):
            if len(prefix) == self.N:
                out[prefix] = acc
                return
            s = self.step_scores(b, prefix)
            for c in range(self.C):
                go(prefix + (c,), acc + s[c])

        go((), 0.0)
        return out

    def sequences(self):
        return list(itertools.product(range(self.C), repeat=self.N))

    # the user's model ---------------------------------------------------
    def model(self):
        spec = self
        emb = torch.tensor(self.emb, dtype=self.dt)
        W = torch.tensor(self.W, dtype=self.dt)
        P = torch.tensor(self.P, dtype=self.dt)
        hide = self.case["state"]

        class Model(torch.nn.Module):
            def __init__(self):
                super().__init__()
                self.calls = []
                self.bias = torch.nn.Parameter(torch.zeros(1, dtype=spec.dt))

            def forward(self, inputs, state):
                s, t = unpack(state, hide)
                n = inputs.shape[0]
                assert s.shape[0] == n and t.shape[0] == n, "state and inputs disagree on batch size"
                assert tuple(s.shape[1:]) == (2, H), "state changed shape"
                self.calls.append(tuple(inputs.shape))
                outs = []
                for i in range(inputs.shape[1]):
                    tok = inputs[:, i]
                    if tok.dtype == torch.long:
                        assert tok.dim() == 1 and ((tok >= 0) & (tok < spec.C)).all(), "bad token"
                        e = emb[tok]
                    else:
                        assert tok.shape == (n, spec.C), "bad soft token"
                        e = torch.einsum("nc,cij->nij", tok.to(spec.dt), emb)
                    s = 0.5 * s + e
                    x = spec.scale * (torch.tanh(s.reshape(n, -1)) @ W + P[t % 5]) + spec.offset + self.bias
                    outs.append(x)
                    t = t + 1
                return torch.stack(outs, 1), pack(s, t, hide)

        return Model()

    def initial(self):
        s = torch.tensor(self.init, dtype=self.dt)
        if self.case["layout"] == "rev":
            s = K.lay_out(s, "rev")
        elif self.case["layout"] == "grad":
            s = s.requires_grad_(True)
        t = torch.tensor(self.t0, dtype=torch.long)
        return pack(s, t, self.case["state"])

    def dist(self, cls=None):
        kw = {}
        if self.start or self.case.get("kw"):
            kw["start_class"] = self.start
        if not self.normalize or self.case.get("kw"):
            kw["normalize"] = self.normalize
        return (cls or ts().Autoregressive)(self.model(), self.initial(), self.C, self.N, **kw)


@st.composite
def spec_case(draw, max_seqs=81, scales=("soft", "mid", "mid", "sharp", "offset", "flat", "near"), dtypes=("f64", "f64", "f32"), max_b=3, normalize=None):
    sizes = [(c, n) for c in range(1, 6) for n in range(1, 7) if c ** n <= max_seqs]
    if draw(st.integers(0, 9)):
        sizes = [s for s in sizes if s[0] > 1]
    C, N = draw(st.sampled_from(sizes))
    B = draw(st.integers(1, max_b))
    return {
        "C": C, "N": N, "B": B,
        "start": draw(st.integers(0, C - 1)),
        "normalize": draw(st.booleans()) if normalize is None else normalize,
        "kw": draw(st.booleans()),
        "scale": draw(st.sampled_from(list(scales))),
        "state": draw(st.sampled_from(STATES)),
        "layout": draw(st.sampled_from(["c", "c", "rev", "grad"])),
        "dtype": draw(st.sampled_from(list(dtypes))),
        "t0": [draw(st.integers(0, 4)) for _ in range(B)],
        "init": draw(st.binary(min_size=B * 2 * H, max_size=B * 2 * H)).hex(),
        "wseed": draw(st.integers(0, 10 ** 6)),
    }


SIZES = [(2, 12), (2, 40), (3, 20), (3, 7), (5, 9), (6, 30), (9, 5), (10, 12), (17, 3), (20, 8), (33, 4), (40, 2), (65, 3),
         (100, 2), (127, 2), (128, 3), (129, 2), (200, 2), (255, 2), (256, 2), (257, 3), (300, 2), (1, 20), (2, 70), (3, 130), (2, 260), (513, 2)]


@st.composite
def big_spec(draw, scales=("soft", "mid", "mid", "sharp", "offset", "flat", "near"), normalize=None, max_c=10 ** 9):
    "Many classes, long sequences or large batches: far beyond listing all sequences."
    c = draw(spec_case(scales=scales, normalize=normalize))
    C, N = draw(st.sampled_from([s for s in SIZES if s[0] <= max_c]))
    B = draw(st.sampled_from([1, 2, 3, 5, 8, 17, 33, 65, 130]))
    start = draw(st.sampled_from([0, 0, C - 1, C // 2]))
    rng = np.random.RandomState(c["wseed"] + 5)
    c.update(C=C, N=N, B=B, start=start, t0=rng.randint(0, 5, B).tolist(),
             init=rng.bytes(B * 2 * H).hex())
    return c


def labels(case):
    out = ["scale:" + case["scale"], case["dtype"], "state:" + case["state"],
           "normalised" if case["normalize"] else "raw"]
    if case["start"]:
        out.append("start-class")
    if case["B"] == 1:
        out.append("batch1")
    if case["C"] == 1:
        out.append("trivial:one-class")
    return out
