"""C26: models report their shapes, can be printed, and validate their arguments on request."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import kinds as K
from ..armodel import Spec, spec_case
from ..runner import Sub
from ..sut import expect, sut, ts

ID = "C26"
QUICK = 1.5
RULE = (
    "a case is a model with validation switched on, and a query or a broken value; trivial only "
    "when the broken value cannot be expressed for the model"
)
QT = ["partition", "marginals", "max", "argmax", "entropy", "count", "kmax", "topk"]
QC = ["partition", "max", "entropy", "kmax"]


def build(kind, dims, x, lens, **kw):
    T = ts()
    if kind == "dep":
        return T.DependencyCRF(x, lengths=lens, multiroot=bool(dims[2]), **kw)
    if kind == "np":
        return T.NonProjectiveDependencyCRF(x, lengths=lens, multiroot=bool(dims[1]), **kw)
    cls = {"lc": T.LinearChainCRF, "sm": T.SemiMarkovCRF, "tree": T.TreeCRF, "cfg": T.SentCFG}[kind]
    return cls(x, lengths=lens, **kw)


def ask(d, q):
    return getattr(d, q)(3) if q in ("kmax", "topk") else getattr(d, q)


def fresh(x):
    return tuple(t.detach().clone() for t in x) if isinstance(x, tuple) else x.detach().clone()


def shapes(d, kind, dims, B):
    expect(tuple(d.batch_shape) == (B,), "batch shape is %s for %d items", tuple(d.batch_shape), B)
    if kind != "cfg":
        want = K.event_shape(kind, dims)
        expect(tuple(d.event_shape) == want, "event shape is %s, potentials have %s", tuple(d.event_shape), want)
    text = sut(repr, d)
    expect(isinstance(text, str) and len(text) > 0, "a model prints as %r", text)


def accepted(case):
    b = K.Built(case)
    q = case["q"]
    on = sut(build, b.kind, b.dims, b.x, b.lt, validate_args=True)
    shapes(on, b.kind, b.dims, b.B)
    off = sut(build, b.kind, b.dims, fresh(b.x), b.lt, validate_args=False)
    shapes(off, b.kind, b.dims, b.B)
    got, want = sut(ask, on, q), sut(ask, off, q)
    got, want = [v if isinstance(v, (tuple, list)) else [v] for v in (got, want)]
    for g, w in zip(got, want):
        expect(torch.equal(g, w), "%s of a %s model with validation is %s, without %s", q, b.kind, g, w)
    return ["kind:" + b.kind, "q:" + q, "lengths" if b.lt is not None else "no-lengths"]


def large(case):
    "Large batches and long inputs: shapes, printing, and the same answer with validation."
    kind, dims, B = case["kind"], case["dims"], case["B"]
    rng = np.random.RandomState(case["seed"])
    v = torch.tensor(rng.randn(B, K.esize(kind, dims)))
    x = tuple(p.contiguous() for p in K.split_cfg(v, dims)) if kind == "cfg" else v.reshape((B,) + K.event_shape(kind, dims))
    full = K.full_len(kind, dims)
    lens = None
    if case["lens"]:
        lo = min(full, 2)
        lens = torch.tensor([full] + rng.randint(lo, full + 1, B - 1).tolist(), dtype=torch.long)
    on = sut(build, kind, dims, x, lens, validate_args=True)
    off = sut(build, kind, dims, fresh(x), lens)
    for d in (on, off):
        shapes(d, kind, dims, B)
    if lens is not None and kind != "np":
        expect(torch.equal(on.lengths, lens) and on.lengths.dtype == torch.long, "the model's lengths are %s, given %s", on.lengths, lens)
    expect(torch.equal(sut(lambda: on.partition), sut(lambda: off.partition)), "log-partitions of a %s model differ with validation", kind)
    if case["bad"] and lens is not None and kind != "np":
        bad = lens.clone()
        bad[case["seed"] % B] = -1
        why = value_error(lambda: build(kind, dims, x, bad, validate_args=True))
        expect(why is None, "a %s model with a negative length among %d %s although validation is on", kind, B, why)
    return ["kind:" + kind, "lengths" if lens is not None else "no-lengths"]


@st.composite
def large_case(draw):
    kind = draw(st.sampled_from(list(KN)))
    dims = draw(st.sampled_from({"lc": [[3, 2], [40, 3], [130, 2], [2, 40]], "sm": [[3, 3, 2], [40, 3, 2]], "dep": [[3, 0, 1], [12, 2, 0], [20, 0, 1]],
                                 "tree": [[3, 2], [20, 2], [3, 40]], "cfg": [[3, 2, 2], [8, 3, 3]], "np": [[3, 1], [20, 0], [30, 1]]}[kind]))
    return {"kind": kind, "dims": dims, "B": draw(st.sampled_from([1, 2, 9, 17, 33, 65, 130])), "lens": draw(st.booleans()),
            "bad": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6))}


def value_error(f):
    try:
        f()
    except ValueError:
        return None
    except Exception as e:  # noqa: BLE001
        return "raised %s instead of a ValueError" % type(e).__name__
    return "was accepted"


def rejected(case):
    b = K.Built(case)
    how = case["how"]
    x, lt = fresh(b.x), b.lt
    if how == "nan":
        parts = list(x) if isinstance(x, tuple) else [x]
        p = parts[case["at"] % len(parts)]
        p.view(-1)[case["where"] % p.numel()] = float("nan")
    else:
        if lt is None or b.kind == "np":
            return ["trivial:not-applicable"]
        lt = lt.clone()
        at = case["where"] % b.B
        if how == "negative":
            lt[at] = -1 - case["at"]
        else:
            lt = lt.double()
            lt[at] -= 0.5
    sut(build, b.kind, b.dims, b.x, b.lt, validate_args=True)
    why = value_error(lambda: build(b.kind, b.dims, x, lt, validate_args=True))
    expect(why is None, "a %s model with %s %s although validation is on", b.kind,
           {"nan": "a potential that is not a number", "negative": "a negative length", "fraction": "a fractional length"}[how], why)
    return ["kind:" + b.kind, "how:" + how]


def hmm(case):
    rng = np.random.RandomState(case["seed"])
    C, V, N, B = case["C"], case["V"], case["N"], case["B"]
    t = [torch.tensor(rng.randn(*s)) for s in ((C, C), (V, C), (C,))]
    obs = torch.tensor(rng.randint(V, size=(B, N)))
    lens = None
    if case["lens"]:
        lens = torch.tensor([N] + [1 + rng.randint(N) for _ in range(B - 1)])
    on = sut(ts().HMM, *t, obs, lengths=lens, validate_args=True)
    off = sut(ts().HMM, *t, obs, lengths=lens)
    for d in (on, off):
        shapes(d, "lc", [N, C], B)
    expect(torch.equal(sut(lambda: on.partition), sut(lambda: off.partition)), "log-likelihoods differ with validation")
    if case["nan"] is not None:
        i = case["nan"] % 3
        t[i] = t[i].clone()
        # every entry of these tables is used by some observation or transition
        if i == 1:
            t[i][int(obs[0, 0])] = float("nan")
        else:
            t[i].view(-1)[0] = float("nan")
        why = value_error(lambda: ts().HMM(*t, obs, lengths=lens, validate_args=True))
        expect(why is None, "a hidden Markov model with a table entry that is not a number %s although validation is on", why)
    return ["lengths" if case["lens"] else "no-lengths", "nan" if case["nan"] is not None else "clean"]


def autoregressive(case):
    sp = Spec(case)
    kw = {"start_class": sp.start, "normalize": sp.normalize}
    d = sut(ts().Autoregressive, sp.model(), sp.initial(), sp.C, sp.N, **kw)
    expect(tuple(d.batch_shape) == (sp.B,), "batch shape is %s for %d items", tuple(d.batch_shape), sp.B)
    expect(tuple(d.event_shape) == (sp.N, sp.C), "event shape is %s, sequences have %s", tuple(d.event_shape), (sp.N, sp.C))
    text = sut(repr, d)
    expect(isinstance(text, str) and len(text) > 0, "a model prints as %r", text)
    return ["B:%d" % sp.B]


KN = tuple(K.KINDS) + ("np",)


@st.composite
def accepted_case(draw):
    kind = draw(st.sampled_from(list(KN)))
    c = draw(K.model_case(kinds=(kind,), table="small", max_b=3, profiles=("np",) if kind == "np" else ("dyadic", "jitter"),
                          layouts=("c", "grad", "nonleaf", "rev", "step", "exp"), dtypes=("f64", "f32", "bf16") if kind != "np" else ("f64", "f32")))
    c["q"] = draw(st.sampled_from({"cfg": QC, "np": ["partition", "marginals"]}.get(kind, QT)))
    return c


@st.composite
def rejected_case(draw):
    kind = draw(st.sampled_from(list(KN)))
    c = draw(K.model_case(kinds=(kind,), table="small", max_b=3, profiles=("np",) if kind == "np" else ("dyadic",), layouts=("c",)))
    c["how"] = draw(st.sampled_from(["nan", "negative", "fraction"]))
    c["at"], c["where"] = draw(st.integers(0, 3)), draw(st.integers(0, 400))
    return c


@st.composite
def hmm_case(draw):
    return {
        "seed": draw(st.integers(0, 10**6)), "C": draw(st.integers(1, 4)), "V": draw(st.integers(1, 5)),
        "N": draw(st.integers(2, 6)), "B": draw(st.integers(1, 3)), "lens": draw(st.booleans()),
        "nan": draw(st.none() | st.integers(0, 2)),
    }


def subs(tier):
    return [
        Sub("accepted", accepted_case(), accepted, 1500, 15000),
        Sub("rejected", rejected_case(), rejected, 1200, 12000),
        Sub("large", large_case(), large, 120, 1200),
        Sub("hmm", hmm_case(), hmm, 300, 3000),
        Sub("autoregressive", spec_case(max_seqs=27, scales=("mid",)), autoregressive, 200, 2000),
    ]
