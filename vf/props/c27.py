"""C27: the dynamic programs, called directly with a semiring."""
import numpy as np
import torch
from hypothesis import strategies as st

from .. import judge, kinds as K
from ..runner import Sub
from ..sut import expect, sut, ts

ID = "C27"
QUICK = 2.5
RULE = (
    "a case is a dynamic program, a semiring and weights, enumerated or (for positive "
    "weights) long; non-trivial when some item has at least two structures and the weights "
    "are not all equal"
)
ASSUMPTIONS = ["user-defined semirings follow the base class: zero, one, sum, mul, prod, size, convert, unconvert"]


def program(kind, semiring):
    T = ts()
    return sut({"lc": T.LinearChain, "sm": T.SemiMarkov, "dep": T.DepTree, "tree": T.CKY_CRF, "cfg": T.CKY}[kind], semiring)


def small_weights(bt):
    "Whole numbers from -3 to 3, zero included, so every total is exact."
    raw = np.frombuffer(bytes.fromhex(bt.case["vals"]), dtype=np.uint8).reshape(bt.B, bt.E)
    w = np.where(raw % 2 == 0, raw // 2, -((raw.astype(int) + 1) // 2)) % 7
    w = np.where(w > 3, w - 7, w).astype(float)
    return w if bt.case["layout"] != "exp" else np.broadcast_to(w[:1], w.shape).copy()


def tensors(bt, w):
    "The weights as the program's potentials, in the case's memory layout."
    t = torch.tensor(w, dtype=bt.dtype)
    lay = bt.case["layout"]
    parts = K.split_cfg(t, bt.dims) if bt.kind == "cfg" else (t.reshape((bt.B,) + K.event_shape(bt.kind, bt.dims)),)
    if lay == "exp":
        parts = [p[:1].clone().expand(*p.shape) for p in parts]
    else:
        parts = [K.lay_out(p, lay) for p in parts]
    return tuple(parts) if bt.kind == "cfg" else parts[0]


def derivative(M, w):
    "Derivative of the total weight by each part."
    out = np.zeros(len(w))
    for row in M:
        on = np.nonzero(row)[0]
        for e in on:
            d = row[e] * w[e] ** (row[e] - 1)
            for f in on:
                if f != e:
                    d *= w[f] ** row[f]
            out[e] += d
    return out


def weights(case):
    "Sum of products of arbitrary weights, negative and zero ones included, and its derivative."
    bt = K.Built(case)
    w = small_weights(bt)
    x = tensors(bt, w)
    p = program(bt.kind, ts().StdSemiring)
    v = judge.vector(sut(p.sum, x, lengths=bt.lt) if case["kw"] else sut(p.sum, x, bt.lt), bt, "total weight")
    rel = 1e-5 if bt.f32 else 1e-11
    for b in bt.items():
        M = bt.exact(b).M
        terms = np.prod(np.where(M > 0, w[b][None] ** M, 1.0), 1)
        judge.close(v[b], terms.sum(), rel * (1 + np.abs(terms).sum()), "total weight of item %d (length %d)" % (b, bt.lens[b]))
    if case["grad"]:
        m = sut(p.marginals, x, lengths=bt.lt)
        rows = K.events(bt.kind, bt.dims, m, (bt.B,))
        for b in bt.items():
            M = bt.exact(b).M
            judge.close_array(rows[b], derivative(M, w[b]), rel * (1 + derivative(M, np.abs(w[b])).max(initial=0)), "derivative of the total weight of item %d (length %d)" % (b, bt.lens[b]))
    out = [n for n in judge.base_labels(case, bt) if n != "trivial:zero-potentials"]
    if len(np.unique(w)) == 1:
        out.append("trivial:equal-weights")
    return out + (["derivative"] if case["grad"] else [])


def user(name):
    Base = ts().Semiring

    class MinPlus(Base):
        "Least total."
        zero, one = torch.tensor(1e5), torch.tensor(0.0)

        @staticmethod
        def sum(xs, dim=-1):
            return torch.min(xs, dim=dim)[0]

        @staticmethod
        def mul(a, b):
            return a + b

        @staticmethod
        def prod(a, dim=-1):
            return torch.sum(a, dim=dim)

    class Bottleneck(Base):
        "Greatest weakest part."
        zero, one = torch.tensor(-1e5), torch.tensor(1e5)

        @staticmethod
        def sum(xs, dim=-1):
            return torch.max(xs, dim=dim)[0]

        @staticmethod
        def mul(a, b):
            return torch.minimum(a, b)

        @staticmethod
        def prod(a, dim=-1):
            return torch.min(a, dim=dim)[0]

    class Expectation(Base):
        "Pairs (weight, weight times total): both summed."
        zero, one = torch.tensor([0.0, 0.0]), torch.tensor([1.0, 0.0])

        @staticmethod
        def size():
            return 2

        @staticmethod
        def convert(xs):
            return torch.stack([torch.ones_like(xs), xs])

        @staticmethod
        def unconvert(xs):
            return xs[1]

        @staticmethod
        def sum(xs, dim=-1):
            assert dim != 0
            return torch.sum(xs, dim=dim)

        @staticmethod
        def mul(a, b):
            return torch.stack([a[0] * b[0], a[0] * b[1] + a[1] * b[0]])

        @classmethod
        def prod(cls, xs, dim=-1):
            raise NotImplementedError

    return {"min": MinPlus, "bottleneck": Bottleneck, "expectation": Expectation}[name]


def direct(case):
    "The provided and some user-defined semirings, called without a distribution."
    bt = K.Built(case)
    name = case["sr"]
    T = ts()
    S = {"log": lambda: T.LogSemiring, "max": lambda: T.MaxSemiring, "kmax": lambda: T.KMaxSemiring(case["k"]),
         "ent": lambda: T.EntropySemiring}.get(name, lambda: user(name))()
    p = program(bt.kind, S)
    v = judge.vector(sut(p.sum, bt.x, lengths=bt.lt), bt, "total in semiring " + name)
    for b in bt.items():
        ex = bt.exact(b)
        if name in ("max", "kmax"):
            want = ex.scores.max()
        elif name == "log":
            want = ex.logZ
        elif name == "ent":
            want = ex.entropy
        elif name == "min":
            want = ex.scores.min()
        elif name == "expectation":
            want = ex.scores.sum()
        else:
            want = np.where(ex.M > 0, bt.phi[b][None], 1e5).min(1).max() if bt.E else 1e5
        tol = bt.tol(b) * (ex.n if name == "expectation" else 1 + 10 * (name == "ent"))
        judge.close(v[b], want, tol, "total of item %d (length %d) in semiring %s" % (b, bt.lens[b], name))
    return judge.base_labels(case, bt) + ["semiring:" + name]


def long(case):
    "Positive weights: the logarithm of their total is the reference log-partition."
    bt = K.Built(case)
    phi = np.clip(bt.phi, -4, 4)
    x = tensors(bt, np.exp(phi))
    p = program(bt.kind, ts().StdSemiring)
    v = judge.vector(sut(p.sum, x, lengths=bt.lt), bt, "total weight")
    for b in bt.items():
        want = float(K.ref(bt.kind, bt.dims, phi[b], bt.lens[b], K.refdp.LogF))
        expect(v[b] > 0, "total weight of item %d is %r", b, v[b])
        judge.close(np.log(v[b]), want, 1e-9 * (1 + abs(want)), "logarithm of the total weight of item %d (length %d)" % (b, bt.lens[b]))
    return judge.base_labels(case, bt)


LAYOUTS = ("c", "c", "rev", "exp", "grad")


def multiroot(c):
    if c["kind"] == "dep":
        c["dims"] = [c["dims"][0], c["dims"][1], 1]
    return c


@st.composite
def weight_case(draw, table):
    c = multiroot(draw(K.model_case(table=table, layouts=LAYOUTS, profiles=("dyadic",), dtypes=("f64", "f64", "f64", "f32"))))
    c["grad"] = table == "tiny" and c["kind"] in ("lc", "sm")  # the tree-shaped charts are updated in place
    c["kw"] = draw(st.booleans())
    return c


@st.composite
def direct_case(draw):
    c = multiroot(draw(K.model_case(layouts=LAYOUTS, profiles=("dyadic", "jitter", "ties", "tiny"))))
    c["sr"] = draw(st.sampled_from(["log", "max", "kmax", "ent", "min", "min", "bottleneck", "bottleneck", "expectation", "expectation"]))
    c["k"] = draw(st.integers(1, 4))
    return c


@st.composite
def long_weights(draw):
    return multiroot(draw(K.model_case(table="large", max_b=2, layouts=LAYOUTS, profiles=("dyadic", "jitter", "tiny"), dtypes=("f64",))))


def subs(tier):
    return [
        Sub("weights", weight_case("tiny"), weights, 1500, 25000),
        Sub("weights-more", weight_case("small"), weights, 1500, 25000),
        Sub("direct", direct_case(), direct, 2500, 40000),
        Sub("long", long_weights(), long, 300, 5000),
    ]
