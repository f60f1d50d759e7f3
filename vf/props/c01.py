"""C01: the log-partition is the exact log-sum over legal structures."""
from .. import huge, judge, kinds as K, refdp
from ..runner import Sub
from ..sut import sut

ID = "C01"
QUICK = 3
RULE = (
    "a case is (model kind, sizes, batch, lengths or none, potentials, dtype, memory "
    "layout, optional forbidden parts); it is non-trivial when some item has at least "
    "two legal structures and not all potentials are zero; cases are distinct by their "
    "full JSON"
)
ASSUMPTIONS = [
    "potentials stay far below 1e5 in magnitude, except forbidden parts, of which at "
    "least one structure per item is free",
]


def enum(case):
    bt = K.Built(case)
    v = judge.vector(sut(lambda: bt.dist().partition), bt, "log-partition")
    for b in bt.items():
        ex = bt.exact(b)
        judge.close(v[b], ex.logZ, bt.tol(b), "log-partition of item %d (length %d)" % (b, bt.lens[b]))
    return judge.base_labels(case, bt)


def large(case):
    bt = K.Built(case)
    v = judge.vector(sut(lambda: bt.dist().partition), bt, "log-partition")
    for b in bt.items():
        judge.close(
            v[b], bt.ref(b, refdp.LogF), bt.tol(b, bt.scale_bound(b)),
            "log-partition of item %d (length %d)" % (b, bt.lens[b]),
        )
    return judge.base_labels(case, bt)


def subs(tier):
    lay = ("c", "c", "c", "rev", "step", "exp", "grad")
    return [
        Sub("enum", K.model_case(layouts=lay, forb=True, dtypes=("f64",) * 5 + ("f32", "f32", "bf16")), enum, 1600, 30000),
        Sub("long", K.model_case(table="large", max_b=2, profiles=("dyadic", "jitter", "wide", "neg")), large, 500, 8000),
        Sub("huge", huge.huge_case(), huge.partition, 120, 2000),
    ]
