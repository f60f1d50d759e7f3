"""C02: log-probability = score - log-partition; probabilities sum to one."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import huge, judge, kinds as K
from ..runner import Sub
from ..sut import expect, sut

ID = "C02"
QUICK = 2
RULE = (
    "a case is a model case plus leading sample dimensions, picked structures and an event "
    "dtype and layout; non-trivial when some item has at least two structures and not all "
    "potentials are zero"
)


def some(case):
    bt = K.Built(case)
    lead = tuple(case["lead"])
    ev = np.zeros(lead + (bt.B, bt.E))
    want = np.zeros(lead + (bt.B,))
    picks = case["picks"]
    n = 0
    for i in np.ndindex(*lead):
        for b in bt.items():
            ex = bt.exact(b)
            r = picks[n % len(picks)] % len(ex.M)
            n += 1
            ev[i + (b,)] = ex.M[r]
            want[i + (b,)] = ex.logp[r]
    dt = {"f64": torch.float64, "f32": torch.float32, "long": torch.long, "int": torch.int32,
          "bool": torch.bool, "i8": torch.int8, "u8": torch.uint8, "f16": torch.float16, "bf16": torch.bfloat16}[case["evtype"]]
    v = torch.tensor(ev).to(dt).reshape(lead + (bt.B,) + K.event_shape(bt.kind, bt.dims))
    if case["evlay"] == "rev":
        v = K.lay_out(v, "rev")
    keep = v.clone()
    d = bt.dist()
    lp = sut(d.log_prob, v)
    got = judge.vector(lp, bt, "log-probability", lead)
    expect(torch.equal(v, keep), "log-probability changed the event passed in")
    for i in np.ndindex(*(lead + (bt.B,))):
        judge.close(got[i], want[i], 2 * bt.tol(i[-1]), "log-probability at %s" % (i,))
    return judge.base_labels(case, bt) + ["lead:%d" % len(lead), "event:" + case["evtype"]]


def total(case):
    "All structures of one item scored at once sum to one."
    bt = K.Built(case)
    d = bt.dist()
    n = max(len(bt.exact(b).M) for b in bt.items())
    ev = np.zeros((n, bt.B, bt.E))
    for b in bt.items():
        M = bt.exact(b).M
        ev[:, b] = M[np.arange(n) % len(M)]
    lp = sut(d.log_prob, torch.tensor(ev).reshape((n, bt.B) + K.event_shape(bt.kind, bt.dims)))
    got = judge.vector(lp, bt, "log-probability", (n,))
    for b in bt.items():
        m = len(bt.exact(b).M)
        judge.close(np.exp(got[:m, b]).sum(), 1.0, (2e-4 if bt.f32 else 1e-6) * max(1, bt.exact(b).scale / 50), "total probability of item %d" % b)
    return judge.base_labels(case, bt)


def grammar(case):
    "Grammars have no log_prob; the score of a derivation minus the log-partition is its log-probability."
    import torch_struct

    bt = K.Built(case)
    picks = case["picks"]
    row = [picks[b % len(picks)] % len(bt.exact(b).M) for b in bt.items()]
    ev = torch.tensor(np.stack([bt.exact(b).M[r] for b, r in enumerate(row)]))
    parts = tuple(p.to(bt.dtype) for p in K.split_cfg(ev, bt.dims))
    if case["spans"]:
        parts += (torch.ones(bt.B, bt.dims[0], bt.dims[0], bt.dims[1]),)
    d = bt.dist()
    got = sut(lambda: torch_struct.CKY(torch_struct.LogSemiring).score(d.log_potentials, parts) - d.partition)
    got = judge.vector(got, bt, "score minus log-partition")
    for b, r in enumerate(row):
        judge.close(got[b], bt.exact(b).logp[r], 2 * bt.tol(b), "score of a derivation minus log-partition, item %d" % b)
    return judge.base_labels(case, bt)


@st.composite
def grammar_case(draw):
    c = draw(K.model_case(kinds=["cfg"], layouts=("c", "c", "rev", "step", "nonleaf")))
    c["picks"] = draw(st.lists(st.integers(0, 4000), min_size=1, max_size=8))
    c["spans"] = draw(st.booleans())
    return c


@st.composite
def some_case(draw):
    c = draw(K.model_case(kinds=K.TENSOR_KINDS, layouts=("c", "c", "rev", "step", "exp", "nonleaf")))
    c["lead"] = draw(st.sampled_from([[], [1], [2], [3], [5], [1, 2], [2, 3], [3, 1, 2], [2, 2, 2, 2]]))
    c["picks"] = draw(st.lists(st.integers(0, 4000), min_size=1, max_size=8))
    c["evtype"] = draw(st.sampled_from(["f64", "f32", "long", "int", "bool", "i8", "u8", "f16", "bf16"]))
    c["evlay"] = draw(st.sampled_from(["c", "c", "rev"]))
    return c


def subs(tier):
    return [
        Sub("score", some_case(), some, 3000, 40000),
        Sub("total", K.model_case(kinds=K.TENSOR_KINDS), total, 1500, 20000),
        Sub("grammar", grammar_case(), grammar, 300, 4000),
        Sub("huge", huge.with_s(huge.huge_case(kinds=K.TENSOR_KINDS, styles=huge.PLAIN), (1, 2, 5)), huge.log_prob, 100, 1600),
    ]
