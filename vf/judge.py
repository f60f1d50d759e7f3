"""Judgements shared by several properties: each raises Violation."""
import numpy as np
import torch

from . import kinds as K
from . import oracle
from .sut import expect


def base_labels(case, bt):
    out = K.labels(case)
    if not case["vals"].strip("0") and case["prof"] not in ("jitter",):
        out.append("trivial:zero-potentials")
    elif all(K.count(bt.kind, bt.dims, l) < 2 for l in bt.lens):
        out.append("trivial:single-structure")
    return out


def vector(v, bt, what, lead=None):
    "A per-item result: shape (lead..., B), right dtype; returned as float64 numpy."
    want = tuple(lead or ()) + (bt.B,)
    expect(tuple(v.shape) == want, "%s has shape %s, expected %s", what, tuple(v.shape), want)
    expect(v.dtype == bt.dtype, "%s has dtype %s for %s potentials", what, v.dtype, bt.dtype)
    return v.detach().double().numpy()


def close(got, want, tol, what):
    expect(
        np.isfinite(got) and abs(got - want) <= tol,
        "%s is %r, expected %r (tolerance %.3g)", what, float(got), float(want), tol,
    )


def close_array(got, want, tol, what):
    d = np.abs(got - want)
    d = np.where(np.isfinite(got), d, np.inf)
    if d.size and d.max() > tol:
        i = np.unravel_index(int(np.argmax(d)), d.shape)
        expect(
            False, "%s at %s is %r, expected %r (tolerance %.3g)",
            what, tuple(int(x) for x in i), float(got[i]), float(want[i]), tol,
        )


def event_tensor(t, bt, what, lead=()):
    "Shape check of an event-shaped result, then (lead..., B, E) float64 numpy."
    lead = tuple(lead) + (bt.B,)
    if bt.kind == "cfg":
        N, NT, T = bt.dims
        shapes = [(N, T), (NT, NT + T, NT + T), (NT,)]
        expect(len(t) >= 3, "%s should have terminal, rule and root parts", what)
        for p, s in zip(t, shapes):
            expect(tuple(p.shape) == lead + s, "%s part has shape %s, expected %s", what, tuple(p.shape), lead + s)
    else:
        want = lead + K.event_shape(bt.kind, bt.dims)
        expect(tuple(t.shape) == want, "%s has shape %s, expected %s", what, tuple(t.shape), want)
        expect(t.dtype == bt.dtype, "%s has dtype %s for %s potentials", what, t.dtype, bt.dtype)
    return K.events(bt.kind, bt.dims, t, lead)


def legal(vec, bt, b, what):
    "vec must be exactly one row of the item's support; returns row indices."
    M = bt.exact(b).M
    idx = oracle.row_index(M, vec)
    if not len(idx):
        near = np.round(vec)
        why = "not 0/1-valued" if np.abs(near - vec).max() > 1e-6 or vec.min() < 0 else "not a legal structure"
        expect(
            False, "%s of item %d (length %d) is %s: parts %s",
            what, b, bt.lens[b], why,
            [(int(i), float(vec[i])) for i in np.nonzero(vec)[0][:12]],
        )
    return idx


def no_grad_tensor(t):
    return t.detach() if isinstance(t, torch.Tensor) else t
