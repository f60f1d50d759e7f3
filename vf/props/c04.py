"""C04: max value and a legal structure attaining it."""
import numpy as np

from .. import huge, judge, kinds as K, refdp
from ..runner import Sub
from ..sut import expect, sut

ID = "C04"
QUICK = 1.5
RULE = (
    "a case is (model kind, sizes, batch, lengths or none, potentials incl. heavily tied "
    "ones, dtype, layout); non-trivial when some item has at least two structures and not "
    "all potentials are zero"
)


def queries(bt):
    d = bt.dist()
    mx = judge.vector(sut(lambda: d.max), bt, "max")
    am = judge.event_tensor(sut(lambda: d.argmax), bt, "argmax")
    mo = judge.event_tensor(sut(lambda: d.mode), bt, "mode")
    expect(np.array_equal(am, mo), "mode differs from argmax")
    return mx, am


def enum(case):
    bt = K.Built(case)
    mx, am = queries(bt)
    out = judge.base_labels(case, bt)
    for b in bt.items():
        ex = bt.exact(b)
        judge.close(mx[b], ex.max, bt.tol(b), "max of item %d (length %d)" % (b, bt.lens[b]))
        i = judge.legal(am[b], bt, b, "argmax")
        judge.close(ex.scores[i[0]], ex.max, 2 * bt.tol(b), "score of the argmax structure of item %d" % b)
        if np.sum(ex.scores >= ex.max - 1e-12) > 1:
            out.append("tied-optimum")
    return sorted(set(out))


def large(case):
    bt = K.Built(case)
    mx, am = queries(bt)
    for b in bt.items():
        t = bt.tol(b, bt.scale_bound(b))
        judge.close(mx[b], bt.ref(b, refdp.MaxF), t, "max of item %d (length %d)" % (b, bt.lens[b]))
        v = am[b]
        expect(np.array_equal(v, np.round(v)) and v.min() >= 0, "argmax of item %d is not integral", b)
        judge.close(float(v @ bt.phi[b]), mx[b], 2 * t, "score of the argmax of item %d" % b)
        # membership without enumeration: with all other parts forbidden exactly the
        # structures inside v remain, and the reference must find one using all of v
        pen = np.where(v > 0, 0.0, -1.0)
        judge.close(bt_ref(bt, b, pen), 0.0, 1e-9, "legality of the argmax of item %d" % b)
        bonus = np.where(v > 0, 1.0, 0.0)
        judge.close(bt_ref(bt, b, bonus), float(v.sum()), 1e-9, "completeness of the argmax of item %d" % b)
    return judge.base_labels(case, bt)


def bt_ref(bt, b, phi):
    return K.ref(bt.kind, bt.dims, phi, bt.lens[b], refdp.MaxF)


def subs(tier):
    lay = ("c", "c", "c", "grad", "rev", "step")
    prof = ("jitter", "ties", "dyadic", "wide", "tiny", "neg", "big", "ties", "near")
    return [
        Sub("enum", K.model_case(layouts=lay, forb=True, dtypes=("f64",) * 5 + ("f32", "f32", "bf16"), profiles=prof), enum, 1200, 24000),
        Sub("long", K.model_case(table="large", max_b=2, profiles=("jitter", "ties", "dyadic", "near")), large, 250, 4000),
        Sub("huge", huge.huge_case(dtypes=("f64", "f64", "f32", "bf16")), huge.best, 160, 2400),
        Sub("long-bf16", huge.huge_case(kinds=("lc", "lc", "sm"), dtypes=("bf16",), wide=False, min_len=120, scales=("soft", "mid")), huge.best, 64, 640),
    ]
