"""C23: one broken precondition at a time is rejected; the repaired input is accepted."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import huge, kinds as K
from ..armodel import Spec, spec_case
from ..runner import Sub
from ..sut import expect, sut, ts

ID = "C23"
QUICK = 2
RULE = (
    "a case is a well-formed model or autoregressive case, a query, and one precondition to "
    "break; every case is non-trivial: the query must fail when broken and succeed when repaired"
)
QT = ["partition", "marginals", "max", "argmax", "entropy", "count", "kmax", "topk", "sample", "log_prob", "kl", "cross_entropy"]
QC = ["partition", "marginals", "max", "argmax", "entropy", "kmax"]


def query(d, q, shape, dtype):
    if q in ("kmax", "topk"):
        return getattr(d, q)(2)
    if q == "sample":
        return d.sample((2,))
    if q == "log_prob":
        return d.log_prob(torch.zeros(shape, dtype=dtype))
    if q in ("kl", "cross_entropy"):
        return getattr(d, q)(d)
    return getattr(d, q)


def rejected(f):
    try:
        f()
    except Exception:  # noqa: BLE001  any error is a rejection
        return True
    return False


def crop(x, dim, n):
    return x.narrow(dim, 0, n)


def grow(x, dim):
    return torch.cat([x, x.narrow(dim, 0, 1) * 0.5], dim)


def broken(case, bt):
    "Returns (potentials, lengths) with one precondition broken, or None if not expressible."
    kind, dims, how = bt.kind, bt.dims, case["how"]
    x, lt = bt.x, bt.lt
    full = K.full_len(kind, dims)
    lens = list(bt.lens)
    at = case["at"] % bt.B
    if how == "long":
        lens[at] = full + 1 + case["amount"] % 3
        return x, torch.tensor(lens)
    if how == "nofull":
        if kind not in ("lc", "sm") or full < 3:
            return None
        return x, torch.tensor([max(1, min(l, full - 1)) for l in lens])
    if how in ("wide", "narrow"):
        f = grow if how == "wide" else lambda t, d: crop(t, d, t.shape[d] - 1)
        if kind == "cfg":
            t, r, o = x
            if how == "narrow":
                return (t, crop(r, 2 + case["axis"] % 2, r.shape[2] - 1), o), lt
            return (t, grow(r, 2 + case["axis"] % 2), o), lt
        ax = {"lc": (2, 3), "sm": (3, 4), "dep": (1, 2), "tree": (1, 2)}[kind][case["axis"] % 2]
        if how == "narrow" and x.shape[ax] < 3:
            return None
        if how == "wide" and x.shape[ax] < 2:
            return None
        return f(x, ax), lt
    if how == "rank+":
        if kind == "cfg" or (kind == "dep" and not dims[1]):
            return None
        return x.unsqueeze(-1), lt
    if how == "rank-":
        if kind == "cfg" or (kind == "dep" and dims[1]):
            return None
        return x.flatten(-2), lt
    raise KeyError(how)


def structured(case):
    bt = K.Built(case)
    q = case["q"]
    b = broken(case, bt)
    if b is None:
        return ["trivial:not-applicable"]
    x, lt = b
    good = bt.dist()
    sh = (bt.B,) + K.event_shape(bt.kind, bt.dims)
    sut(query, good, q, sh, bt.dtype)

    def bad():
        d = K.make(bt.kind, bt.dims, x, lt)
        return query(d, q, tuple(x.shape) if bt.kind != "cfg" else None, bt.dtype)

    expect(rejected(bad), "%s of a %s model answered although its input is ill-formed (%s: shape %s, lengths %s)",
           q, bt.kind, case["how"], [tuple(t.shape) for t in (x if bt.kind == "cfg" else [x])], None if lt is None else lt.tolist())
    return ["kind:" + bt.kind, "how:" + case["how"], "q:" + q]


def large(case):
    "Ill-formed inputs far beyond the sizes above."
    h = huge.Huge(dict(case, layout="c"))
    c = dict(case, at=case["vseed"] % h.B)
    b = broken(c, h)
    if b is None:
        return ["trivial:not-applicable"]
    x, lt = b
    q = case["q"]
    sut(query, h.dist(), q, None, h.dtype)
    expect(rejected(lambda: query(K.make(h.kind, h.dims, x, lt), q, None, h.dtype)),
           "%s of a %s model answered although its input is ill-formed (%s)", q, h.kind, case["how"])
    return ["kind:" + h.kind, "how:" + case["how"], "q:" + q]


def sample_shape(case):
    bt = K.Built(case)
    d = bt.dist()
    s = sut(d.sample, (1 + case["n"],))
    expect(s.shape[0] == 1 + case["n"], "sample count")
    shape = {"none": (), "two": (2, 1 + case["n"]), "three": (1, 1, 1)}[case["bad"]]
    expect(rejected(lambda: d.sample(shape) if case["bad"] != "none" else d.sample()), "sample shape %s was answered", shape)
    return ["kind:" + bt.kind, "shape:" + case["bad"]]


class Wrong(torch.nn.Module):
    "A model that returns scores or state of the wrong shape from its j-th call on."

    def __init__(self, inner, how, after):
        super().__init__()
        self.inner, self.how, self.after, self.n = inner, how, after, 0

    def forward(self, inputs, state):
        logits, state = self.inner(inputs, state)
        self.n += 1
        if self.n <= self.after:
            return logits, state
        if self.how == "classes+":
            logits = torch.cat([logits, logits[..., :1]], -1)
        elif self.how == "classes-":
            logits = logits[..., :-1]
        elif self.how == "time":
            logits = torch.cat([logits, logits[:, :1]], 1)
        elif self.how == "flat":
            logits = logits[:, 0]
        elif self.how == "batch":
            logits = torch.cat([logits, logits[:1]], 0)
        elif self.how == "state":
            state = tuple(torch.cat([s, s[:1]], 0) for s in state)
        elif self.how == "state1":
            state = (state[0],) + tuple(torch.cat([s, s[:1]], 0) for s in state[1:])
        return logits, state


def autoregressive(case):
    sp = Spec(case)
    q, how = case["q"], case["how"]
    if how == "state1" and case["state"] == "one":
        how = "state"  # there is no second state tensor to get wrong
    if q == "log_prob" and how in ("state", "state1"):
        return ["trivial:not-applicable"]
    if how == "classes-" and sp.C < 2:
        return ["trivial:not-applicable"]
    after = 0 if q == "log_prob" else case["after"] % sp.N

    def make(wrong):
        m = sp.model()
        kw = {"start_class": sp.start, "normalize": sp.normalize}
        return ts().Autoregressive(Wrong(m, how, after) if wrong else m, sp.initial(), sp.C, sp.N, **kw)

    def ask(d):
        if q == "log_prob":
            return d.log_prob(torch.zeros(2, sp.B, sp.N).long(), sparse=True)
        if q == "greedy":
            return d.greedy_max()
        if q == "beam":
            return d.beam_topk(2)
        return d.sample_without_replacement((2,))

    sut(ask, sut(make, False))
    expect(rejected(lambda: ask(make(True))), "%s answered although the model returns wrongly shaped results (%s, from call %d)", q, how, after + 1)
    return ["q:" + q, "how:" + how]


@st.composite
def struct_case(draw):
    c = draw(K.model_case(table="small", max_b=3, profiles=("dyadic", "jitter"), layouts=("c", "grad"), min_full=2))
    c["q"] = draw(st.sampled_from(QC if c["kind"] == "cfg" else QT))
    hows = ["long", "wide", "narrow", "rank+", "rank-"] + (["nofull", "nofull"] if c["kind"] in ("lc", "sm") else [])
    c["how"] = draw(st.sampled_from(hows))
    c["at"], c["amount"], c["axis"] = draw(st.integers(0, 2)), draw(st.integers(0, 2)), draw(st.integers(0, 1))
    return c


@st.composite
def large_case(draw):
    c = draw(huge.huge_case(scales=("soft", "mid"), styles=("normal",), max_e=2500))
    c["q"] = draw(st.sampled_from(["partition", "max", "marginals", "argmax"]))
    c["how"] = draw(st.sampled_from(["long", "wide", "narrow", "rank+", "rank-"] + (["nofull", "nofull"] if c["kind"] in ("lc", "sm") else [])))
    c["amount"], c["axis"] = draw(st.integers(0, 2)), draw(st.integers(0, 1))
    return c


@st.composite
def sample_case(draw):
    c = draw(K.model_case(kinds=K.TENSOR_KINDS, table="tiny", max_b=2, profiles=("dyadic",)))
    c["n"] = draw(st.integers(0, 3))
    c["bad"] = draw(st.sampled_from(["none", "two", "three"]))
    return c


@st.composite
def ar_case(draw):
    c = draw(spec_case(max_seqs=27, scales=("mid",)))
    c["q"] = draw(st.sampled_from(["log_prob", "greedy", "beam", "without"]))
    c["how"] = draw(st.sampled_from(["classes+", "classes-", "time", "flat", "batch", "state", "state1"]))
    c["after"] = draw(st.integers(0, 4))
    return c


def subs(tier):
    return [
        Sub("structured", struct_case(), structured, 3000, 30000),
        Sub("large", large_case(), large, 80, 1200),
        Sub("sample-shape", sample_case(), sample_shape, 200, 2000),
        Sub("autoregressive", ar_case(), autoregressive, 1500, 15000),
    ]
