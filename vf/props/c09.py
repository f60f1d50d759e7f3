"""C09: structure counts."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import huge, judge, kinds as K
from ..runner import Sub
from ..sut import sut

ID = "C09"
QUICK = 2.5
RULE = (
    "a case is a model case with arbitrary potentials and, in half of the enumerated cases, "
    "parts at minus infinity (excluded from the count) or hugely negative but finite (not excluded); non-trivial when some item has at least two structures"
)


def run(case, want):
    bt = K.Built(case)
    v = judge.vector(sut(lambda: bt.dist().count), bt, "count")
    for b in bt.items():
        w = want(bt, b)
        judge.close(v[b], w, (1e-5 if bt.f32 else 1e-10) * max(1, w), "count of item %d (length %d)" % (b, bt.lens[b]))
    out = [x for x in judge.base_labels(case, bt) if x != "trivial:zero-potentials"]
    return out


def enum(case):
    return run(case, lambda bt, b: bt.exact(b).n)


def large(case):
    return run(case, lambda bt, b: float(K.count(bt.kind, bt.dims, bt.lens[b])))


@st.composite
def inf_case(draw):
    c = draw(K.model_case(kinds=K.TENSOR_KINDS, layouts=("c", "c", "rev", "exp")))
    if c["layout"] != "exp" and draw(st.booleans()):
        c["forb"] = {
            "value": draw(st.sampled_from(["-inf", "-inf", "-1e9", "-1e5", "-2e4", "-1e30"])),
            "density": draw(st.sampled_from([20, 60, 128, 230, 256])),
            "keep": [draw(st.integers(0, 4000)) for _ in range(c["B"])],
        }
    return c


def subs(tier):
    return [
        Sub("enum", inf_case(), enum, 4000, 60000),
        Sub("long", K.model_case(kinds=K.TENSOR_KINDS, table="large", max_b=2), large, 400, 6000),
        Sub("huge", huge.huge_case(kinds=K.TENSOR_KINDS), huge.counts, 200, 3000),
    ]
