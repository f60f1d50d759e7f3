"""C03: marginals are exact posterior part probabilities."""
import numpy as np
import torch

from .. import huge, judge, kinds as K, oracle, refdp
from ..runner import Sub
from ..sut import expect, sut

ID = "C03"
QUICK = 2.5
RULE = (
    "a case is (model kind, sizes, batch, lengths or none, potentials, dtype, layout); "
    "non-trivial when some item has at least two structures and not all potentials are zero"
)


def enum(case):
    bt = K.Built(case)
    d = bt.dist()
    if case.get("order"):
        sut(lambda: getattr(d, case["order"]))
    m = sut(lambda: d.marginals)
    got = judge.event_tensor(m, bt, "marginals")
    tol = 3e-5 if bt.f32 else 1e-8
    for b in bt.items():
        ex = bt.exact(b)
        t = tol * max(1.0, ex.scale / (4 if bt.f32 else 100))
        t = t * (np.max(ex.M) if len(ex.M) else 1)
        judge.close_array(got[b], ex.marg, t, "marginals of item %d (length %d)" % (b, bt.lens[b]))
    if bt.kind == "cfg":
        spans(bt, m[3], tol)
    return judge.base_labels(case, bt)


def spans(bt, sp, tol):
    N, NT, T = bt.dims
    expect(tuple(sp.shape) == (bt.B, N, N, NT), "span marginals have shape %s", tuple(sp.shape))
    got = sp.detach().double().numpy()
    for b in bt.items():
        ex = bt.exact(b)
        S = oracle.cfg_support(N, NT, T, bt.lens[b])[1]
        want = (ex.p @ S).reshape(N, N, NT)
        t = tol * max(1.0, ex.scale / (4 if bt.f32 else 100))
        judge.close_array(got[b], want, t, "span marginals of item %d" % b)


def large(case):
    bt = K.Built(case)
    m = sut(lambda: bt.dist().marginals)
    got = judge.event_tensor(m, bt, "marginals")
    for b in bt.items():
        x = torch.tensor(bt.phi[b], requires_grad=True)
        z = K.ref(bt.kind, bt.dims, x, bt.lens[b], refdp.TorchLog(torch))
        if z.requires_grad:
            want = torch.autograd.grad(z, x)[0].numpy()
        else:
            want = np.zeros(bt.E)
        t = (5e-4 if bt.f32 else 1e-7) * max(1.0, bt.scale_bound(b) / 50)
        judge.close_array(got[b], want, t, "marginals of item %d (length %d)" % (b, bt.lens[b]))
    return judge.base_labels(case, bt)


def subs(tier):
    from hypothesis import strategies as st

    base = K.model_case(layouts=("c", "c", "grad", "rev", "step", "nonleaf"), forb=True)
    order = st.sampled_from([None, None, None, "partition", "max", "argmax", "entropy"])

    def add(c, o):
        c = dict(c)
        if o and not (c.get("forb") and o == "entropy"):
            c["order"] = o
        return c

    return [
        Sub("enum", st.builds(add, base, order), enum, 1200, 24000),
        Sub("long", K.model_case(table="large", max_b=2, profiles=("dyadic", "jitter", "neg")), large, 160, 2500),
        Sub("huge", huge.huge_case(), huge.marginals, 160, 1200),
    ]
